//! C15, C16, C24 - C27.

use std::num::NonZeroU16;

use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;
use vharness::content::content_op;
use vharness::docs::*;
use vharness::engine::{guarded, Prop, Src};
use vharness::gen::*;
use vharness::pdf::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            run: c15,
            quick: 720_000,
            thorough: 12_000_000,
            rule: "the first 4352 cases walk all Unicode scalar values in blocks of 256; the rest generate pair sequences with lengths around multiples of 100, both code widths, any collection info and names; non-trivial: at least one pair",
            assumptions: &[],
            must_hit: &["line break", "u8", "u16", "block boundary", "several blocks", "multiple", "empty destination", "vertical", "astral"],
        },
        Prop {
            id: "C16",
            run: c16,
            quick: 10_800_000,
            thorough: 40_000_000,
            rule: "random operator trees of depth up to 5 (some nested up to 1000 deep or 70000 long) over all operators and boundary-biased numbers; non-trivial: at least two operators",
            assumptions: &["floats are finite (documented domain)"],
            must_hit: &["if", "ifelse", "real", "int", "empty block", "single"],
        },
        Prop {
            id: "C24",
            run: c24,
            quick: 48_000,
            thorough: 2_400_000,
            rule: "case i covers the i-th role of either version and a block of 64 heading levels under all 8 option sets (1024 cases enumerate all 65535 levels); non-trivial: every case",
            assumptions: &[],
            must_hit: &["1.7", "2.0", "headings"],
        },
        Prop {
            id: "C25",
            run: c25,
            quick: 9_600_000,
            thorough: 40_000_000,
            rule: "one checked call per case with a valid or invalid argument, biased to the boundary, plus random call orders for separation and DeviceN spaces; case 0 writes a stream longer than i32::MAX; non-trivial: every case",
            assumptions: &["panic means unwinding, as documented", "calling the DeviceN attributes twice is unspecified"],
            must_hit: &["accepted", "rejected", "ref", "line width", "flatness", "decode parms", "icc", "tiling", "page mode", "outline", "separation", "device n", "language", "stream", "random calls"],
        },
        Prop {
            id: "C26",
            run: c26,
            quick: 960_000,
            thorough: 18_000_000,
            rule: "a generated chunk, document or content program is run several times with equal and different capacities, interleaved clones and both layouts; non-trivial: at least one object or operation",
            assumptions: &[],
            must_hit: &["chunk", "document", "content", "clone", "reserve"],
        },
        Prop {
            id: "C27",
            run: c27,
            quick: 4_800_000,
            thorough: 40_000_000,
            rule: "random and boundary ids, rectangles, buffers and chunks; non-trivial: every case",
            assumptions: &["rectangles with the first corner at the lower left for the orientation of corner points"],
            must_hit: &["ref", "rect", "buf", "chunk", "last id"],
        },
    ]
}

// ---------------------------------------------------------------- C15

struct CmapSpec {
    name: Vec<u8>,
    registry: Vec<u8>,
    ordering: Vec<u8>,
    supplement: i32,
    vertical: bool,
    wide: bool,
    pairs: Vec<(u16, Vec<char>)>,
}

impl CmapSpec {
    fn feed<G: GlyphIdNum>(&self, explicit: bool, alt: bool) -> Vec<u8>
    where
        UnicodeCmap<G>: CmapApi<G>,
    {
        let info = SystemInfo {
            registry: Str(&self.registry),
            ordering: Str(&self.ordering),
            supplement: self.supplement,
        };
        let mut c = <UnicodeCmap<G> as CmapApi<G>>::make(
            Name(&self.name),
            info,
            if self.vertical || explicit { Some(if self.vertical { WMode::Vertical } else { WMode::Horizontal }) } else { None },
        );
        for (g, t) in &self.pairs {
            let g = G::from_num(*g);
            if t.len() == 1 && !alt {
                c.one(g, t[0]);
            } else {
                c.many(g, t);
            }
        }
        c.done()
    }
}

trait GlyphIdNum: Copy {
    fn from_num(n: u16) -> Self;
}
impl GlyphIdNum for u8 {
    fn from_num(n: u16) -> u8 {
        n as u8
    }
}
impl GlyphIdNum for u16 {
    fn from_num(n: u16) -> u16 {
        n
    }
}

trait CmapApi<G> {
    fn make(n: Name, i: SystemInfo, w: Option<WMode>) -> Self;
    fn one(&mut self, g: G, c: char);
    fn many(&mut self, g: G, c: &[char]);
    fn done(self) -> Vec<u8>;
}
macro_rules! cmap_api {
    ($t:ty) => {
        impl CmapApi<$t> for UnicodeCmap<$t> {
            fn make(n: Name, i: SystemInfo, w: Option<WMode>) -> Self {
                match w {
                    None => UnicodeCmap::new(n, i),
                    Some(w) => UnicodeCmap::with_writing_mode(n, i, w),
                }
            }
            fn one(&mut self, g: $t, c: char) {
                self.pair(g, c)
            }
            fn many(&mut self, g: $t, c: &[char]) {
                self.pair_with_multiple(g, lz(c.iter().copied()))
            }
            fn done(self) -> Vec<u8> {
                self.finish().into_vec()
            }
        }
    };
}
cmap_api!(u8);
cmap_api!(u16);

fn no_breaks(mut v: Vec<u8>) -> Vec<u8> {
    for b in &mut v {
        if matches!(*b, b'\n' | b'\r' | 0x0c) {
            *b = b'_';
        }
    }
    v
}

fn c15(s: &mut Src) -> Result<(), String> {
    let walk = s.index < 4352;
    let wide = s.coin();
    s.hit(if wide { "u16" } else { "u8" });
    let mut pairs: Vec<(u16, Vec<char>)> = Vec::new();
    if walk {
        for cp in (s.index as u32 * 256)..(s.index as u32 * 256 + 256) {
            if let Some(c) = char::from_u32(cp) {
                pairs.push((cp as u16, vec![c]));
            }
        }
    } else {
        let n = match s.below(20) {
            0 => 0,
            1..=12 => s.usize(1, 6),
            13..=17 => *s.pick(&[98usize, 99, 100, 101, 102, 198, 199, 200, 201, 299, 300, 301]),
            18 => s.usize(0, 450),
            _ => *s.pick(&[500usize, 999, 1000, 1001]),
        };
        let huge = s.one_in(6000);
        let (n, few) = if huge { (*s.pick(&HUGE), s.usize(1, 20)) } else { (n, n) };
        for i in 0..n {
            if huge && i >= few && i != n - 1 {
                // Very long maps repeat a few pairs.
                pairs.push((i as u16, pairs[i % few].1.clone()));
                continue;
            }
            if i > 0 && s.one_in(16) {
                // The same once more, or the same text for another glyph.
                let (g, t) = pairs[i - 1].clone();
                pairs.push((if s.coin() { g } else { g.wrapping_add(1) }, t));
                continue;
            }
            let g = match s.below(5) {
                0 | 1 => i as u16,
                2 => s.below(65536) as u16,
                3 => *s.pick(&[0u16, 1, 9, 10, 15, 16, 127, 128, 254, 255, 256, 257, 0x0fff, 0x1000, 0xfffe, 0xffff]),
                _ => s.below(256) as u16,
            };
            let k = match s.below(16) {
                0 => 0,
                1..=11 => 1,
                12 | 13 => 2,
                14 => s.usize(3, 6),
                _ if s.one_in(20) => s.usize(100, 600),
                _ => s.usize(0, 70),
            };
            if k == 0 {
                s.hit("empty destination");
            }
            if k > 1 {
                s.hit("multiple");
            }
            let t: Vec<char> = (0..k)
                .map(|_| match s.below(8) {
                    0..=2 => (b'a' + s.below(26) as u8) as char,
                    3 => *s.pick(&['\0', '\u{f}', '\u{10}', '\u{ff}', '\u{100}', '\u{fff}', '\u{1000}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{feff}']),
                    4 => *s.pick(&['\u{10000}', '\u{10001}', '\u{103ff}', '\u{10400}', '\u{1f600}', '\u{fffff}', '\u{100000}', '\u{10fc00}', '\u{10ffff}']),
                    5 => char::from_u32(0x10000 + s.below(0x100000) as u32).unwrap(),
                    _ => char::from_u32(s.below(0xd800) as u32).unwrap(),
                })
                .collect();
            if t.iter().any(|c| *c as u32 > 0xffff) {
                s.hit("astral");
            }
            pairs.push((g, t));
        }
    }
    if !pairs.is_empty() && pairs.len() % 100 == 0 {
        s.hit("block boundary");
    }
    if pairs.len() > 100 {
        s.hit("several blocks");
    }
    s.nontrivial = !pairs.is_empty();
    let spec = CmapSpec {
        name: s.name_bytes(),
        registry: s.bytes(40),
        ordering: s.bytes(40),
        supplement: s.int(),
        vertical: s.coin(),
        wide,
        pairs,
    };
    if [&spec.name, &spec.registry, &spec.ordering].iter().any(|v| no_breaks(v.to_vec()) != **v) {
        s.hit("line break");
    }
    if spec.vertical {
        s.hit("vertical");
    }
    let (explicit, alt) = (s.coin(), s.coin());
    let out = if spec.wide { spec.feed::<u16>(explicit, alt) } else { spec.feed::<u8>(explicit, alt) };
    s.note(|| format!("{}-bit map of {} pairs, starting {:?}", if wide { 16 } else { 8 }, spec.pairs.len(), spec.pairs.iter().take(4).collect::<Vec<_>>()));
    check_cmap(&spec, &out)
}

fn hex_string(v: &M) -> Result<&[u8], String> {
    match v {
        M::Str(b) => Ok(b),
        v => Err(format!("{} instead of a code string", show(v))),
    }
}

/// A value on the stack of the interpreter below.
#[derive(Clone)]
enum P {
    Obj(M),
    Dict(usize),
    ProcSet,
}

struct PsDict {
    capacity: i64,
    entries: Vec<(Vec<u8>, P)>,
}

/// Run the map the way a PostScript interpreter with the CIDInit procedure set
/// would and compare what it defines.
fn check_cmap(spec: &CmapSpec, out: &[u8]) -> Result<(), String> {
    if !out.starts_with(b"%!PS-Adobe-3.0 Resource-CMap\n") {
        return Err("no CMap resource header".into());
    }
    if !out.ends_with(b"%%EOF") {
        return Err("no end comment".into());
    }
    // The header comments, in order, where the name can be told apart.
    let plain = |v: &[u8]| no_breaks(v.to_vec()) == v;
    if plain(&spec.name) && plain(&spec.registry) && plain(&spec.ordering) {
        let cat = |parts: &[&[u8]]| parts.concat();
        let supplement = spec.supplement.to_string();
        let want = [
            b"%!PS-Adobe-3.0 Resource-CMap".to_vec(),
            b"%%DocumentNeededResources: procset CIDInit".to_vec(),
            b"%%IncludeResource: procset CIDInit".to_vec(),
            cat(&[b"%%BeginResource: CMap ", &spec.name]),
            cat(&[b"%%Title: (", &spec.name, b" ", &spec.registry, b" ", &spec.ordering, b" ", supplement.as_bytes(), b")"]),
            b"%%EndComments".to_vec(),
            b"%%EndResource".to_vec(),
            b"%%EOF".to_vec(),
        ];
        let mut lines = out.split(|&b| b == b'\n');
        for w in &want {
            if !lines.any(|l| l == w) {
                return Err(format!("comment {:?} is missing or out of order", String::from_utf8_lossy(w)));
            }
        }
    }
    let ops = parse_content(out)?;
    let width = if spec.wide { 2 } else { 1 };
    let mut got: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    let mut ranges = Vec::new();
    let mut dicts: Vec<PsDict> = Vec::new();
    let mut open: Vec<Option<usize>> = Vec::new();
    let mut stack: Vec<P> = Vec::new();
    let mut block: Option<(&str, usize)> = None;
    let (mut begun, mut ended, mut defined) = (false, false, None);
    for (op, args) in &ops {
        if defined.is_some() && !args.is_empty() {
            return Err("operands after the map was defined".into());
        }
        stack.extend(args.iter().cloned().map(P::Obj));
        let under = || format!("stack underflow or wrong operand at {op}");
        macro_rules! pop {
            ($p:pat => $e:expr) => {
                match stack.pop() {
                    Some($p) => $e,
                    _ => return Err(under()),
                }
            };
        }
        let allowed_in_block = matches!(op.as_str(), "endcodespacerange" | "endbfchar");
        if block.is_some() && !allowed_in_block {
            return Err(format!("{op} inside a block"));
        }
        match op.as_str() {
            "findresource" => {
                let cat = pop!(P::Obj(M::Name(n)) => n);
                let key = pop!(P::Obj(M::Name(n)) => n);
                if cat != b"ProcSet" || key != b"CIDInit" {
                    return Err("an unknown resource is used".into());
                }
                stack.push(P::ProcSet);
            }
            "dict" => {
                let capacity = pop!(P::Obj(v) => int_of(Some(&v)).ok_or_else(under)?);
                dicts.push(PsDict { capacity, entries: vec![] });
                stack.push(P::Dict(dicts.len() - 1));
            }
            "dup" => {
                let v = pop!(v => v);
                stack.push(v.clone());
                stack.push(v);
            }
            "pop" => {
                pop!(_ => ());
            }
            "begin" => match stack.pop() {
                Some(P::Dict(d)) => open.push(Some(d)),
                Some(P::ProcSet) => open.push(None),
                _ => return Err(under()),
            },
            "end" => {
                if open.pop().is_none() {
                    return Err("end without begin".into());
                }
            }
            "def" => {
                let v = pop!(v => v);
                let k = pop!(P::Obj(M::Name(n)) => n);
                match open.last() {
                    Some(Some(d)) => dicts[*d].entries.push((k, v)),
                    _ => return Err("definition outside a dictionary".into()),
                }
            }
            "currentdict" => match open.last() {
                Some(Some(d)) => stack.push(P::Dict(*d)),
                _ => return Err("no current dictionary".into()),
            },
            "CMapName" => {
                let v = open.iter().rev().flatten().find_map(|d| dicts[*d].entries.iter().find(|e| e.0 == b"CMapName"));
                stack.push(v.ok_or("CMapName is not defined")?.1.clone());
            }
            "defineresource" => {
                let cat = pop!(P::Obj(M::Name(n)) => n);
                let dict = pop!(P::Dict(d) => d);
                let key = pop!(P::Obj(M::Name(n)) => n);
                if cat != b"CMap" || key != spec.name || !ended || defined.is_some() {
                    return Err("wrong resource definition".into());
                }
                defined = Some(dict);
                stack.push(P::Dict(dict));
            }
            "begincmap" => {
                if begun || open.len() != 2 || open[0].is_some() {
                    return Err("begincmap out of place".into());
                }
                begun = true
            }
            "endcmap" => {
                if !begun || ended || open.len() != 2 {
                    return Err("endcmap out of place".into());
                }
                ended = true
            }
            "begincodespacerange" | "beginbfchar" => {
                if !begun || ended {
                    return Err(format!("{op} out of place"));
                }
                match pop!(P::Obj(v) => int_of(Some(&v))) {
                    Some(n) if (1..=100).contains(&n) => block = Some((&op[5..], n as usize)),
                    _ => return Err(format!("{op} does not announce 1 to 100 entries")),
                }
                if !stack.is_empty() {
                    return Err(format!("stray operands before {op}"));
                }
            }
            "endcodespacerange" | "endbfchar" => {
                let n = match block.take() {
                    Some((kind, n)) if kind == &op[3..] => n,
                    _ => return Err(format!("{op} without a begin")),
                };
                if stack.len() != 2 * n {
                    return Err(format!("block announces {n} entries and has {} operands", stack.len()));
                }
                let mut codes = stack.drain(..).map(|p| match p {
                    P::Obj(v) => hex_string(&v).map(|b| b.to_vec()),
                    _ => Err("no code string".into()),
                });
                while let (Some(a), Some(b)) = (codes.next(), codes.next()) {
                    if op == "endbfchar" {
                        got.push((a?, b?));
                    } else {
                        ranges.push((a?, b?));
                    }
                }
            }
            op => return Err(format!("unknown operator {op}")),
        }
    }
    if !stack.is_empty() || !open.is_empty() {
        return Err(format!("{} operands and {} dictionaries are left over", stack.len(), open.len()));
    }
    if let Some(d) = dicts.iter().find(|d| d.entries.len() as i64 > d.capacity) {
        return Err(format!("a dictionary for {} entries has {}", d.capacity, d.entries.len()));
    }
    let Some(defined) = defined else { return Err("the map is not defined".into()) };
    if ranges != [(vec![0; width], vec![0xff; width])] {
        return Err(format!("code space ranges are {ranges:?}"));
    }
    let get = |d: usize, k: &str| -> Result<P, String> {
        let mut it = dicts[d].entries.iter().filter(|e| e.0 == k.as_bytes());
        match (it.next(), it.next()) {
            (Some(e), None) => Ok(e.1.clone()),
            (None, _) => Err(format!("/{k} is not defined")),
            _ => Err(format!("/{k} is defined twice")),
        }
    };
    let def = |d: usize, k: &str, want: M| -> Result<(), String> {
        match get(d, k)? {
            P::Obj(v) => check(&want, &v).map_err(|e| format!("/{k}: {e}")),
            _ => Err(format!("/{k} is a dictionary")),
        }
    };
    let P::Dict(info) = get(defined, "CIDSystemInfo")? else { return Err("/CIDSystemInfo is no dictionary".into()) };
    def(defined, "CMapName", M::Name(spec.name.clone()))?;
    def(info, "Registry", M::Str(spec.registry.clone()))?;
    def(info, "Ordering", M::Str(spec.ordering.clone()))?;
    def(info, "Supplement", M::Int(spec.supplement as i64))?;
    def(defined, "WMode", M::Int(spec.vertical as i64))?;
    get(defined, "CMapVersion")?;
    match get(defined, "CMapType")? {
        P::Obj(v) if matches!(int_of(Some(&v)), Some(0..=2)) => {}
        _ => return Err("/CMapType is not 0, 1 or 2".into()),
    }
    if got.len() != spec.pairs.len() {
        return Err(format!("{} pairs added, {} written", spec.pairs.len(), got.len()));
    }
    for (i, ((g, t), (a, b))) in spec.pairs.iter().zip(&got).enumerate() {
        let code = if spec.wide { g.to_be_bytes().to_vec() } else { vec![*g as u8] };
        if a != &code {
            return Err(format!("pair {i}: glyph {code:02x?} written as {a:02x?}"));
        }
        let text: Vec<u16> = t.iter().flat_map(|c| c.encode_utf16(&mut [0; 2]).to_vec()).collect();
        let read: Vec<u16> = b.chunks(2).map(|p| (p[0] as u16) << 8 | *p.get(1).unwrap_or(&0) as u16).collect();
        if b.len() % 2 != 0 || read != text {
            return Err(format!("pair {i}: text {t:?} written as {b:02x?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

#[derive(Debug, Clone)]
pub enum Calc {
    Real(f32),
    Int(i32),
    Op(usize),
    If(Vec<Calc>),
    IfElse(Vec<Calc>, Vec<Calc>),
}

const OPS: &[(PostScriptOp<'static>, &str)] = {
    use PostScriptOp::*;
    &[
        (Abs, "abs"),
        (Add, "add"),
        (Atan, "atan"),
        (Ceiling, "ceiling"),
        (Cos, "cos"),
        (Cvi, "cvi"),
        (Cvr, "cvr"),
        (Div, "div"),
        (Exp, "exp"),
        (Floor, "floor"),
        (Idiv, "idiv"),
        (Ln, "ln"),
        (Log, "log"),
        (Mod, "mod"),
        (Mul, "mul"),
        (Neg, "neg"),
        (Round, "round"),
        (Sin, "sin"),
        (Sqrt, "sqrt"),
        (Sub, "sub"),
        (Truncate, "truncate"),
        (And, "and"),
        (Bitshift, "bitshift"),
        (Eq, "eq"),
        (False, "false"),
        (Ge, "ge"),
        (Gt, "gt"),
        (Le, "le"),
        (Lt, "lt"),
        (Ne, "ne"),
        (Not, "not"),
        (Or, "or"),
        (True, "true"),
        (Xor, "xor"),
        (Copy, "copy"),
        (Dup, "dup"),
        (Exch, "exch"),
        (Index, "index"),
        (Pop, "pop"),
        (Roll, "roll"),
    ]
};

fn plain_op(i: usize) -> &'static (PostScriptOp<'static>, &'static str) {
    &OPS[i]
}

pub fn gen_calc(s: &mut Src, depth: u32) -> Vec<Calc> {
    let n = match s.below(10) {
        0 => {
            s.hit("empty block");
            0
        }
        1 | 2 => {
            s.hit("single");
            1
        }
        9 => s.count(0, 20),
        _ => s.usize(2, 5),
    };
    (0..n)
        .map(|_| match s.below(if depth > 0 { 10 } else { 8 }) {
            0..=3 => Calc::Op(s.usize(0, 39)),
            4 | 5 => {
                s.hit("real");
                Calc::Real(s.num())
            }
            6 | 7 => {
                s.hit("int");
                Calc::Int(s.int())
            }
            8 => {
                s.hit("if");
                Calc::If(gen_calc(s, depth - 1))
            }
            _ => {
                s.hit("ifelse");
                Calc::IfElse(gen_calc(s, depth - 1), gen_calc(s, depth - 1))
            }
        })
        .collect()
}

/// Owns the operator slices that nested operators borrow.
#[derive(Default)]
struct Arena(Vec<Box<[PostScriptOp<'static>]>>);

impl Arena {
    fn build(&mut self, ops: &[Calc]) -> &'static [PostScriptOp<'static>] {
        let v: Box<[PostScriptOp<'static>]> = ops
            .iter()
            .map(|c| match c {
                Calc::Real(f) => PostScriptOp::Real(*f),
                Calc::Int(i) => PostScriptOp::Integer(*i),
                Calc::Op(i) => plain_op(*i).0,
                Calc::If(a) => PostScriptOp::If(self.build(a)),
                Calc::IfElse(a, b) => {
                    let a = self.build(a);
                    PostScriptOp::IfElse(a, self.build(b))
                }
            })
            .collect();
        // The boxes live as long as the arena, which outlives the encoding.
        let p: *const [PostScriptOp<'static>] = &*v;
        self.0.push(v);
        unsafe { &*p }
    }
}

pub fn encode_calc(ops: &[Calc]) -> Buf {
    let mut a = Arena::default();
    let top = a.build(ops);
    let b = PostScriptOp::encode(top);
    drop(a);
    b
}

pub fn calc_limits(ops: &[Calc], l: &mut Lim) {
    for o in ops {
        match o {
            Calc::Real(f) => l.real = l.real.max(f.abs()),
            Calc::Int(i) => l.int(*i as i64),
            Calc::Op(_) => {}
            Calc::If(a) => calc_limits(a, l),
            Calc::IfElse(a, b) => {
                calc_limits(a, l);
                calc_limits(b, l);
            }
        }
    }
}

/// Tokens of the calculator language: braces stand alone.
fn calc_tokens(b: &[u8]) -> Result<Vec<String>, String> {
    let mut out = Vec::new();
    let mut cur = String::new();
    for &c in b {
        if is_ws(c) || c == b'{' || c == b'}' {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            if !is_ws(c) {
                out.push((c as char).to_string());
            }
        } else if is_regular(c) && c.is_ascii_graphic() {
            cur.push(c as char);
        } else {
            return Err(format!("byte {c:#x} in calculator code"));
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    Ok(out)
}

fn check_calc(ops: &[Calc], t: &[String], at: &mut usize) -> Result<(), String> {
    let next = |at: &mut usize| {
        *at += 1;
        t.get(*at - 1).map(|s| s.as_str()).unwrap_or("")
    };
    let want = |w: &str, at: &mut usize| -> Result<(), String> {
        let g = next(at);
        if g == w {
            Ok(())
        } else {
            Err(format!("token {}: expected {w:?}, read {g:?}", *at - 1))
        }
    };
    want("{", at)?;
    for o in ops {
        match o {
            Calc::Real(f) => {
                let g = next(at);
                let ok = tok_f32(g).is_some_and(|v| v == *f)
                    && !(is_int_token(g) && g.parse::<i64>().is_ok_and(|v| i32::try_from(v).is_ok()));
                if !ok {
                    return Err(format!("token {}: real {f:?} written as {g:?}", *at - 1));
                }
            }
            Calc::Int(i) => want(&i.to_string(), at)?,
            Calc::Op(i) => want(plain_op(*i).1, at)?,
            Calc::If(a) => {
                check_calc(a, t, at)?;
                want("if", at)?;
            }
            Calc::IfElse(a, b) => {
                check_calc(a, t, at)?;
                check_calc(b, t, at)?;
                want("ifelse", at)?;
            }
        }
    }
    want("}", at)
}

fn calc_size(ops: &[Calc]) -> usize {
    ops.iter()
        .map(|o| match o {
            Calc::If(a) => 1 + calc_size(a),
            Calc::IfElse(a, b) => 1 + calc_size(a) + calc_size(b),
            _ => 1,
        })
        .sum()
}

fn c16(s: &mut Src) -> Result<(), String> {
    let d = s.below(6) as u32;
    let mut ops = gen_calc(s, d);
    if s.one_in(300) {
        // Conditionals nested deep around it.
        s.hit("deep");
        let n = *s.pick(&[6usize, 16, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 300, 1000]);
        for i in 0..n {
            ops = match s.below(4) {
                0 => vec![Calc::If(ops)],
                1 => vec![Calc::IfElse(ops, vec![])],
                2 => vec![Calc::Int(i as i32), Calc::IfElse(vec![Calc::Op(0)], ops)],
                _ => vec![Calc::Op(1), Calc::If(ops), Calc::Op(2)],
            };
        }
    } else if s.one_in(10_000) {
        s.hit("long");
        let n = *s.pick(&HUGE);
        let few = gen_calc(s, 1);
        if !few.is_empty() {
            ops = (0..n).map(|i| few[i % few.len()].clone()).collect();
        }
    }
    s.nontrivial = calc_size(&ops) >= 2;
    let out = encode_calc(&ops);
    s.note(|| format!("{ops:?} -> {}", String::from_utf8_lossy(&out)));
    let t = calc_tokens(&out)?;
    let mut at = 0;
    check_calc(&ops, &t, &mut at)?;
    if at != t.len() {
        return Err(format!("{} tokens expected, {} written", at, t.len()));
    }
    // As a function stream, the same bytes arrive in the file.
    if s.below(4) == 0 {
        let mut c = Chunk::with_settings(settings(s));
        c.post_script_function(Ref::new(1), &out).domain([0.0, 1.0]).range([0.0, 1.0]);
        let v = parse_chunk(c.as_bytes())?;
        if v[0].stream.as_deref() != Some(&out[..]) {
            return Err("function stream does not hold the code".into());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

type T1 = StructRoleType;
type T2 = StructRoleType2;

pub fn roles_1() -> Vec<(StructRole, &'static str, T1, Option<&'static str>)> {
    use BlockLevelRoleSubtype as B;
    use InlineLevelRoleSubtype as I;
    use StructRole as R;
    let g = T1::Grouping;
    let p = T1::BlockLevel(B::ParagraphLike);
    let l = T1::BlockLevel(B::List);
    let t = T1::Table;
    let i = T1::InlineLevel(I::Generic);
    let r = T1::InlineLevel(I::RubyWarichu);
    let f = T1::Illustration;
    vec![
        (R::Document, "Document", g, Some("Document")),
        (R::Part, "Part", g, Some("Part")),
        (R::Art, "Art", g, None),
        (R::Sect, "Sect", g, Some("Sect")),
        (R::Div, "Div", g, Some("Div")),
        (R::BlockQuote, "BlockQuote", g, None),
        (R::Caption, "Caption", g, Some("Caption")),
        (R::TOC, "TOC", g, None),
        (R::TOCI, "TOCI", g, None),
        (R::Index, "Index", g, None),
        (R::NonStruct, "NonStruct", g, Some("NonStruct")),
        (R::Private, "Private", g, None),
        (R::P, "P", p, Some("P")),
        (R::StructuredHeading, "H", p, Some("H")),
        (R::H1, "H1", p, Some("H1")),
        (R::H2, "H2", p, Some("H2")),
        (R::H3, "H3", p, Some("H3")),
        (R::H4, "H4", p, Some("H4")),
        (R::H5, "H5", p, Some("H5")),
        (R::H6, "H6", p, Some("H6")),
        (R::L, "L", l, Some("L")),
        (R::LI, "LI", l, Some("LI")),
        (R::Lbl, "Lbl", l, Some("Lbl")),
        (R::LBody, "LBody", l, Some("LBody")),
        (R::Table, "Table", T1::BlockLevel(B::Table), Some("Table")),
        (R::TR, "TR", t, Some("TR")),
        (R::TH, "TH", t, Some("TH")),
        (R::TD, "TD", t, Some("TD")),
        (R::THead, "THead", t, Some("THead")),
        (R::TBody, "TBody", t, Some("TBody")),
        (R::TFoot, "TFoot", t, Some("TFoot")),
        (R::Span, "Span", i, Some("Span")),
        // Roles that PDF 2.0 replaced by others.
        (R::Quote, "Quote", i, Some("Em")),
        (R::Note, "Note", i, Some("FENote")),
        (R::Reference, "Reference", i, Some("Link")),
        (R::BibEntry, "BibEntry", i, None),
        (R::Code, "Code", i, Some("Strong")),
        (R::Link, "Link", T1::InlineLevel(I::Link), Some("Link")),
        (R::Annot, "Annot", T1::InlineLevel(I::Annotation), Some("Annot")),
        (R::Ruby, "Ruby", i, Some("Ruby")),
        (R::Warichu, "Warichu", i, Some("Warichu")),
        (R::RB, "RB", r, Some("RB")),
        (R::RT, "RT", r, Some("RT")),
        (R::RP, "RP", r, Some("RP")),
        (R::WT, "WT", r, Some("WT")),
        (R::WP, "WP", r, Some("WP")),
        (R::Figure, "Figure", f, Some("Figure")),
        (R::Formula, "Formula", f, Some("Formula")),
        (R::Form, "Form", f, Some("Form")),
    ]
}

/// Roles of PDF 2.0 apart from numbered headings, with the 1.7 role they map
/// to when there is no role of the same name.
pub fn roles_2(o: &dyn Fn(RoleMapOpts) -> bool) -> Vec<(StructRole2, &'static str, T2, Option<&'static str>)> {
    use InlineLevelRoleSubtype2 as I;
    use StructRole2 as R;
    let p = T2::BlockLevel;
    let i = T2::InlineLevel(I::Generic);
    let r = T2::InlineLevel(I::RubyWarichu);
    let t = T2::Table;
    vec![
        (R::Document, "Document", T2::Document, None),
        (R::DocumentFragment, "DocumentFragment", T2::Document, Some("Div")),
        (R::Part, "Part", T2::Grouping, None),
        (R::Sect, "Sect", T2::Grouping, None),
        (R::Div, "Div", T2::Grouping, None),
        (R::Aside, "Aside", T2::Grouping, Some("Div")),
        (R::NonStruct, "NonStruct", T2::Grouping, None),
        (R::P, "P", p, None),
        (R::StructuredHeading, "H", p, None),
        (R::Title, "Title", p, Some(if o(RoleMapOpts::MAP_TITLE_TO_H1) { "H1" } else { "P" })),
        (R::FENote, "FENote", p, Some("Note")),
        (R::Sub, "Sub", T2::SubBlockLevel, Some(if o(RoleMapOpts::MAP_SUB_TO_SPAN) { "Span" } else { "Div" })),
        (R::Lbl, "Lbl", i, None),
        (R::Span, "Span", i, None),
        (R::Em, "Em", i, Some("Span")),
        (R::Strong, "Strong", i, Some("Span")),
        (R::Link, "Link", i, None),
        (R::Annot, "Annot", i, None),
        (R::Form, "Form", i, None),
        (R::Ruby, "Ruby", r, None),
        (R::RB, "RB", r, None),
        (R::RT, "RT", r, None),
        (R::RP, "RP", r, None),
        (R::Warichu, "Warichu", r, None),
        (R::WT, "WT", r, None),
        (R::WP, "WP", r, None),
        (R::L, "L", T2::List, None),
        (R::LI, "LI", T2::List, None),
        (R::LBody, "LBody", T2::List, None),
        (R::Table, "Table", t, None),
        (R::TR, "TR", t, None),
        (R::TH, "TH", t, None),
        (R::TD, "TD", t, None),
        (R::THead, "THead", t, None),
        (R::TBody, "TBody", t, None),
        (R::TFoot, "TFoot", t, None),
        (R::Caption, "Caption", T2::Caption, None),
        (R::Figure, "Figure", T2::Figure, None),
        (R::Formula, "Formula", T2::Formula, None),
        (R::Artifact, "Artifact", T2::Artifact, Some("Private")),
    ]
}

fn name_2(r: StructRole2) -> String {
    String::from_utf8_lossy(r.to_name(&mut [0; 6]).0).into_owned()
}

/// The name a 1.7 role is written under.
fn name_1(r: StructRole) -> Result<String, String> {
    let mut c = Chunk::new();
    c.struct_element(Ref::new(1)).kind(r);
    let v = parse_chunk(c.as_bytes())?;
    match get(&v[0].value, "S") {
        Some(M::Name(n)) => Ok(String::from_utf8_lossy(n).into_owned()),
        x => Err(format!("/S of {r:?} is {x:?}")),
    }
}

fn check_role_2(r: StructRole2, name: &str, ty: T2, mapped: Option<&str>, opts: RoleMapOpts, default: bool) -> Result<(), String> {
    let all = roles_1();
    let find = |n: &str| all.iter().find(|x| x.1 == n).map(|x| x.0);
    let got = name_2(r);
    if got != name {
        return Err(format!("{r:?} is named {got}, not {name}"));
    }
    if r.role_type() != ty {
        return Err(format!("{r:?} is classified {:?}, not {ty:?}", r.role_type()));
    }
    let c = r.compatibility_1_7(opts);
    let same = find(name);
    let (want_same, want_mapped) = match mapped {
        None => (same, None),
        Some(m) => (None, find(m)),
    };
    if same.is_some() != mapped.is_none() {
        return Err(format!("oracle: {name}"));
    }
    let ok = c.into_pdf_1_7() == want_same
        && c.role_mapped_1_7() == want_mapped
        && Some(c.role()) == want_same.or(want_mapped)
        && match c {
            StructRole2Compat::Compatible(x) => Some(x) == want_same,
            StructRole2Compat::RoleMapping(x) => Some(x) == want_mapped,
        };
    if !ok {
        return Err(format!("{r:?} maps to {c:?}, expected direct {want_same:?}, mapped {want_mapped:?}"));
    }
    if default && StructRole::try_from(r).ok() != want_same {
        return Err(format!("{r:?} converts to {:?}, expected {want_same:?}", StructRole::try_from(r)));
    }
    // Back again.
    if let Some(o) = want_same {
        if o.into_pdf_2_0() != Some(r) {
            return Err(format!("{r:?} is compatible with {o:?}, which converts to {:?}", o.into_pdf_2_0()));
        }
    }
    Ok(())
}

fn c24(s: &mut Src) -> Result<(), String> {
    s.nontrivial = true;
    let all = || [RoleMapOpts::MAP_HN_TO_H6, RoleMapOpts::MAP_TITLE_TO_H1, RoleMapOpts::MAP_SUB_TO_SPAN];
    let mk = |bits: u64| {
        let mut o = RoleMapOpts::empty();
        for (i, f) in all().into_iter().enumerate() {
            if bits >> i & 1 == 1 {
                o |= f;
            }
        }
        o
    };
    // One role of PDF 1.7.
    s.hit("1.7");
    let t = roles_1();
    let (r, name, ty, conv) = t[s.index as usize % t.len()];
    s.note(|| format!("role {r:?}"));
    if name_1(r)? != name {
        return Err(format!("{r:?} is written as {}, not {name}", name_1(r)?));
    }
    if r.role_type() != ty {
        return Err(format!("{r:?} is classified {:?}, not {ty:?}", r.role_type()));
    }
    let got = r.into_pdf_2_0();
    if got.map(name_2).as_deref() != conv {
        return Err(format!("{r:?} converts to {got:?}, expected {conv:?}"));
    }
    if StructRole2::try_from(r).ok() != got {
        return Err(format!("the fallible conversion of {r:?} gives {:?}, the mapping {got:?}", StructRole2::try_from(r)));
    }
    if conv == Some(name) && got.and_then(|x| StructRole::try_from(x).ok()) != Some(r) {
        return Err(format!("{r:?} does not convert back from {got:?}"));
    }
    // One role of PDF 2.0 under every option set.
    s.hit("2.0");
    for bits in 0..8 {
        let o = mk(bits);
        let t = roles_2(&|f| o.contains(f));
        let (r, name, ty, mapped) = t[s.index as usize % t.len()];
        let d = o.bits() == RoleMapOpts::default().bits();
        if d != (bits == 0) {
            return Err("default options are not empty".into());
        }
        check_role_2(r, name, ty, mapped, o, d)?;
    }
    // Headings.
    s.hit("headings");
    let base = (s.index % 1024) * 64;
    for n in base..base + 64 {
        let Some(n) = NonZeroU16::new(n as u16) else { continue };
        for bits in 0..8 {
            let name = format!("H{n}");
            let mapped = match n.get() {
                1..=6 => None,
                _ if bits & 1 == 1 => Some("H6"),
                _ => Some("P"),
            };
            check_role_2(StructRole2::Heading(n), &name, T2::BlockLevel, mapped, mk(bits), bits == 0)?;
        }
    }
    // Written where roles are written.
    let pretty = s.pretty();
    let mut c = Chunk::with_settings(Settings { pretty });
    let o = RoleMapOpts::empty();
    let t2 = roles_2(&|f| o.contains(f));
    let (r2, n2) = if s.coin() {
        let x = &t2[s.usize(0, t2.len() - 1)];
        (x.0, x.1.to_string())
    } else {
        let n = 1 + s.below(65535) as u16;
        (StructRole2::Heading(NonZeroU16::new(n).unwrap()), format!("H{n}"))
    };
    let (r1, n1) = {
        let x = &t[s.usize(0, t.len() - 1)];
        (x.0, x.1)
    };
    let (ns, k1, k2) = (s.rf(), s.name_bytes(), s.name_bytes());
    c.struct_element(Ref::new(1)).kind_2(r2, ns);
    c.struct_element(Ref::new(2)).kind(r1);
    {
        let mut n = c.namespace(Ref::new(3));
        n.role_map_ns().to_pdf_1_7(Name(&k1), r1).to_pdf_2_0(Name(&k2), r2, ns);
    }
    c.indirect(Ref::new(4)).start::<RoleMap>().insert(Name(&k1), r1);
    let v = parse_chunk(c.as_bytes())?;
    let want = [
        D::ty("StructElem").with("S", name_m(&n2)).with("NS", ref_m(ns)).m(),
        D::ty("StructElem").with("S", name_m(n1)).m(),
        D::ty("Namespace")
            .with(
                "RoleMapNS",
                M::Dict(vec![(k1.clone(), name_m(n1)), (k2, M::Arr(vec![name_m(&n2), ref_m(ns)]))]),
            )
            .m(),
        M::Dict(vec![(k1, name_m(n1))]),
    ];
    if v.len() != want.len() {
        return Err(format!("{} objects", v.len()));
    }
    for (w, g) in want.iter().zip(&v) {
        check(w, &g.value).map_err(|e| format!("object {}: {e}", g.id))?;
    }
    Ok(())
}

fn name_m(n: &str) -> M {
    M::Name(n.as_bytes().to_vec())
}

// ---------------------------------------------------------------- C25

fn expect_panic<T>(s: &mut Src, valid: bool, what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, String>
where
    T: Default,
{
    s.hit(if valid { "accepted" } else { "rejected" });
    let what = what();
    s.note(|| format!("{what} ({})", if valid { "valid" } else { "invalid" }));
    match (guarded(f), valid) {
        (Ok(v), true) => Ok(v),
        (Err(_), false) => Ok(T::default()),
        (Ok(_), false) => Err(format!("{what} was accepted")),
        (Err(e), true) => Err(format!("{what} panicked: {e}")),
    }
}

fn wide_int(s: &mut Src, near: &[i32]) -> i32 {
    match s.below(4) {
        0 | 1 => {
            let b = *s.pick(near);
            b.saturating_add(s.range(-2, 2) as i32)
        }
        2 => s.int(),
        _ => *s.pick(&[i32::MIN, i32::MIN + 1, -1, 0, 1, i32::MAX - 1, i32::MAX]),
    }
}

fn wide_num(s: &mut Src) -> f32 {
    match s.below(4) {
        0 | 1 => *s.pick(&[0.0, -0.0, 1e-45, -1e-45, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, 1.0, -1.0, f32::MAX, f32::MIN, 0.5, -0.5]),
        _ => s.num(),
    }
}

fn c25(s: &mut Src) -> Result<(), String> {
    s.nontrivial = true;
    let set = settings(s);
    if s.index < 3 {
        s.hit("stream");
        // Zero pages; the writer must refuse before copying them.
        let n = [1usize << 31, 1 << 32, (1 << 32) + 5][s.index as usize];
        let big = vec![0u8; n];
        return expect_panic(s, false, || format!("a stream of {n} bytes"), || {
            let mut c = Chunk::with_settings(set);
            c.stream(Ref::new(1), &big);
        });
    }
    if s.huge(3) {
        s.hit("stream");
        // The longest stream that is allowed.
        let big = vec![0u8; i32::MAX as usize];
        let len = expect_panic(s, true, || "a stream of 2^31 - 1 bytes".into(), || {
            let mut c = Chunk::with_settings_and_capacity(set, big.len() + 200);
            c.stream(Ref::new(1), &big);
            let t = c.as_bytes();
            t[..200].windows(18).any(|w| w == b"/Length 2147483647").then_some(c.len())
        })?;
        return match len {
            Some(n) if n > big.len() => Ok(()),
            n => Err(format!("a stream of 2^31 - 1 bytes gives {n:?} bytes, or another Length")),
        };
    }
    match s.below(13) {
        0 => {
            s.hit("ref");
            let v = wide_int(s, &[0, 1, 100]);
            let got = expect_panic(s, v > 0, || format!("Ref::new({v})"), || Some(Ref::new(v).get()))?;
            if v > 0 && got != Some(v) {
                return Err(format!("Ref::new({v}).get() is {got:?}"));
            }
            Ok(())
        }
        1 => {
            s.hit("line width");
            let v = wide_num(s);
            let pre = s.coin();
            expect_panic(s, v >= 0.0, || format!("set_line_width({v:?})"), || {
                let mut c = Content::with_settings(set);
                if pre {
                    c.save_state();
                }
                c.set_line_width(v);
            })
        }
        2 => {
            s.hit("flatness");
            let v = wide_int(s, &[0, 100, 50, 127, 255, 256]);
            expect_panic(s, (0..=100).contains(&v), || format!("set_flatness({v})"), || {
                Content::with_settings(set).set_flatness(v);
            })
        }
        3 => {
            s.hit("decode parms");
            let v = wide_int(s, &[0, 1, 2, 4, 8, 16, 32]);
            let colors = s.coin();
            let valid = if colors { v > 0 } else { matches!(v, 1 | 2 | 4 | 8 | 16) };
            expect_panic(s, valid, || format!("decode parameter {} {v}", if colors { "colors" } else { "bits per component" }), || {
                let mut c = Chunk::with_settings(set);
                let mut st = c.stream(Ref::new(1), b"");
                let mut p = st.decode_parms();
                if colors {
                    p.colors(v);
                } else {
                    p.bits_per_component(v);
                }
            })
        }
        4 => {
            s.hit("icc");
            let v = wide_int(s, &[0, 1, 2, 3, 4, 5]);
            expect_panic(s, matches!(v, 1 | 3 | 4), || format!("IccProfile::n({v})"), || {
                Chunk::with_settings(set).icc_profile(Ref::new(1), b"x").n(v);
            })
        }
        5 => {
            s.hit("tiling");
            let v = wide_num(s);
            let x = s.coin();
            expect_panic(s, v != 0.0, || format!("tiling step {v:?}"), || {
                let mut c = Chunk::with_settings(set);
                let mut t = c.tiling_pattern(Ref::new(1), b"x");
                if x {
                    t.x_step(v);
                } else {
                    t.y_step(v);
                }
            })
        }
        6 => {
            s.hit("page mode");
            let (m, ok) = *s.pick(&[
                (PageMode::UseNone, true),
                (PageMode::UseOutlines, true),
                (PageMode::UseThumbs, true),
                (PageMode::FullScreen, false),
                (PageMode::UseOC, true),
                (PageMode::UseAttachments, true),
            ]);
            expect_panic(s, ok, || format!("non_full_screen_page_mode({m:?})"), || {
                Chunk::with_settings(set).indirect(Ref::new(1)).start::<ViewerPreferences>().non_full_screen_page_mode(m);
            })
        }
        7 => {
            s.hit("outline");
            let v = wide_int(s, &[0]);
            let item = s.below(4) == 0;
            // Items may have a negative count: it means they are closed.
            expect_panic(s, item || v >= 0, || format!("outline count {v} (item: {item})"), || {
                let mut c = Chunk::with_settings(set);
                if item {
                    c.outline_item(Ref::new(1)).count(v);
                } else {
                    c.outline(Ref::new(1)).count(v);
                }
            })
        }
        8 => {
            s.hit("separation");
            let n = s.usize(0, 4);
            let calls: Vec<u64> = (0..n).map(|_| s.below(5)).collect();
            // The first call is an alternate space, and the only one.
            let valid = calls.iter().enumerate().all(|(i, c)| (*c < 2) == (i == 0));
            expect_panic(s, valid, || format!("separation calls {calls:?}"), || {
                let mut c = Chunk::with_settings(set);
                let cs = c.color_space(Ref::new(1));
                let mut sep = cs.separation(Name(b"S"));
                for k in &calls {
                    match k {
                        0 => {
                            sep.alternate_color_space().srgb();
                        }
                        1 => {
                            sep.alternate_color_space_ref(Ref::new(9));
                        }
                        2 => {
                            sep.tint_exponential().n(1.0);
                        }
                        3 => {
                            sep.tint_stitching().domain([0.0, 1.0]);
                        }
                        _ => {
                            sep.tint_ref(Ref::new(9));
                        }
                    }
                }
            })
        }
        9 => {
            s.hit("device n");
            let n = s.usize(0, 4);
            let mut calls: Vec<u64> = (0..n)
                .map(|i| match (i, s.coin()) {
                    (0, true) => s.below(2),
                    (1, true) => 2 + s.below(3),
                    (2, true) => 5,
                    _ => s.below(6),
                })
                .collect();
            // Attributes twice: unspecified.
            if calls.iter().filter(|c| **c == 5).count() > 1 {
                calls.truncate(1);
            }
            let phase = |c: u64| if c < 2 { 0 } else if c < 5 { 1 } else { 2 };
            let valid = calls.iter().enumerate().all(|(i, c)| phase(*c) == i);
            expect_panic(s, valid, || format!("DeviceN calls {calls:?}"), || {
                let mut c = Chunk::with_settings(set);
                let cs = c.color_space(Ref::new(1));
                let mut d = cs.device_n([Name(b"A"), Name(b"B")]);
                for k in &calls {
                    match k {
                        0 => {
                            d.alternate_color_space().srgb();
                        }
                        1 => {
                            d.alternate_color_space_ref(Ref::new(9));
                        }
                        2 => {
                            d.tint_exponential().n(1.0);
                        }
                        3 => {
                            d.tint_stitching().domain([0.0, 1.0]);
                        }
                        4 => {
                            d.tint_ref(Ref::new(9));
                        }
                        _ => {
                            d.attrs();
                        }
                    }
                }
            })
        }
        10 => {
            s.hit("language");
            let part = |s: &mut Src| -> String {
                let n = *s.pick(&[2usize, 2, 2, 2, 0, 1, 3, 4, 8]);
                (0..n)
                    .map(|_| {
                        *s.pick(&['e', 'z', 'a', 'A', 'Z', '0', '9', '-', '_', ' ', '/', ':', '@', '[', '`', '{', '\0', '\u{7f}', 'é', 'ß', '\u{661}', '\u{ff21}', '\u{10400}', '𝐚'])
                    })
                    .collect()
            };
            let (l, r) = (part(s), part(s));
            let good = |p: &str| p.len() == 2 && p.bytes().all(|b| b.is_ascii_alphanumeric());
            let (a, b) = (LanguageIdentifier::from_lang(&l), LanguageIdentifier::from_lang_region(&l, &r));
            s.note(|| format!("language {l:?} region {r:?}"));
            s.hit(if good(&l) { "accepted" } else { "rejected" });
            if a.is_some() != good(&l) {
                return Err(format!("from_lang({l:?}) is {a:?}"));
            }
            if b.is_some() != (good(&l) && good(&r)) {
                return Err(format!("from_lang_region({l:?}, {r:?}) is {b:?}"));
            }
            Ok(())
        }
        11 => {
            s.hit("stream");
            let n = s.usize(0, 5000);
            expect_panic(s, true, || format!("a stream of {n} bytes"), || {
                Chunk::with_settings(set).stream(Ref::new(1), &vec![0; n]);
            })
        }
        _ => {
            // Anything else must not panic, whatever the values.
            s.hit("random calls");
            let mut c = Content::with_settings(set);
            for _ in 0..4 {
                content_op(s, &mut c);
            }
            c.finish();
            let h = History::gen(s, 4, 50, false);
            s.note(|| format!("{h:?}"));
            h.build().finish();
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C26

/// The place from which `again` can run, with nothing remembered.
fn mark(s: &mut Src) -> usize {
    s.memory = Default::default();
    s.rec.len()
}

/// Run `f` from the same recorded choices again.
fn again<T>(s: &Src, start: usize, f: impl FnOnce(&mut Src) -> T) -> T {
    let mut r = Src::replay(s.rec[start..].to_vec(), s.index);
    r.depth = s.depth;
    f(&mut r)
}

fn c26(s: &mut Src) -> Result<(), String> {
    if !Settings::default().pretty {
        return Err("pretty layout is not the default".into());
    }
    match s.below(3) {
        0 => c26_content(s),
        1 => c26_chunk(s),
        _ => c26_document(s),
    }
}

fn capacity(s: &mut Src) -> usize {
    match s.new_size(6, 0, 1 << 24) {
        Some(n) => n,
        None if s.coin() => *s.pick(&[0usize, 1, 7, 64, 1023, 1024, 5000]),
        None => s.below(6000) as usize,
    }
}

fn c26_content(s: &mut Src) -> Result<(), String> {
    s.hit("content");
    let n = s.count(0, 14);
    s.nontrivial = n > 0;
    let pretty = s.pretty();
    let (cap, extra) = (capacity(s), s.below(6000) as usize);
    let start = mark(s);
    let run = |s: &mut Src, mut c: Content, reserve: usize| {
        for i in 0..n {
            if reserve > 0 && i == n / 2 {
                c.reserve(reserve);
            }
            content_op(s, &mut c);
        }
        c.finish()
    };
    let one = run(s, Content::with_settings(Settings { pretty }), 0);
    let two = again(s, start, |s| run(s, Content::with_settings(Settings { pretty }), 0));
    if one != two {
        return Err(format!("the same operations gave\n{:?}\nand\n{:?}", String::from_utf8_lossy(&one), String::from_utf8_lossy(&two)));
    }
    s.hit("reserve");
    let cap_run = again(s, start, |s| run(s, Content::with_settings_and_capacity(Settings { pretty }, cap), extra));
    if one != cap_run {
        return Err(format!("capacity {cap} and reserving {extra} changed the output"));
    }
    if pretty == Settings::default().pretty {
        let a = again(s, start, |s| run(s, Content::new(), 0));
        let b = again(s, start, |s| run(s, Content::with_capacity(cap), 0));
        if one != a || one != b {
            return Err("the default constructors give other output".into());
        }
    }
    s.note(|| String::from_utf8_lossy(&one).into_owned());
    let other = again(s, start, |s| run(s, Content::with_settings(Settings { pretty: !pretty }), 0));
    same_ops(&parse_content(&one)?, &parse_content(&other)?)
}

fn same_ops(a: &[(String, Vec<M>)], b: &[(String, Vec<M>)]) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} operations in one layout, {} in the other", a.len(), b.len()));
    }
    for (x, y) in a.iter().zip(b) {
        if x.0 != y.0 || !same(&M::Arr(x.1.clone()), &M::Arr(y.1.clone())) {
            return Err(format!("{} {} in one layout, {} {} in the other", show(&M::Arr(x.1.clone())), x.0, show(&M::Arr(y.1.clone())), y.0));
        }
    }
    Ok(())
}

fn same_objects(a: &[Indirect], b: &[Indirect]) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} objects in one layout, {} in the other", a.len(), b.len()));
    }
    for (x, y) in a.iter().zip(b) {
        if x.id != y.id || x.gen != y.gen || !same(&x.value, &y.value) || x.stream != y.stream {
            return Err(format!("object {} is {} in one layout, object {} is {} in the other", x.id, show(&x.value), y.id, show(&y.value)));
        }
    }
    Ok(())
}

/// A random program over a chunk; `half` is called between its halves.
fn program(s: &mut Src, c: &mut Chunk, n: usize, mut half: impl FnMut(&mut Chunk)) {
    for i in 0..n {
        if i == n / 2 {
            half(c);
        }
        let id = if s.one_in(5) { s.rf() } else { Ref::new(i as i32 + 1) };
        match s.below(6) {
            0 => {
                vharness::typed::any(s, c, id);
            }
            1 | 2 => {
                let t = Tree::gen(s, 3);
                t.write_alt(s, c.indirect(id));
            }
            _ => Item { id: id.get(), body: Body::gen(s, 100) }.write(c),
        }
    }
}

fn c26_chunk(s: &mut Src) -> Result<(), String> {
    s.hit("chunk");
    let n = s.count(0, 6);
    s.nontrivial = n > 0;
    let pretty = s.pretty();
    let cap = capacity(s);
    let extra = s.below(6000) as usize;
    let junk = Tree::gen(s, 2);
    let start = mark(s);
    let set = Settings { pretty };
    let run = |s: &mut Src, mut c: Chunk, half: &mut dyn FnMut(&mut Chunk)| {
        program(s, &mut c, n, |c| half(c));
        c
    };
    let one = run(s, Chunk::with_settings(set), &mut |_| {});
    let b = one.as_bytes();
    let two = again(s, start, |s| run(s, Chunk::with_settings(set), &mut |_| {}));
    let eq = |x: &Chunk| x.as_bytes() == b && x.refs().eq(one.refs()) && x.limits() == one.limits();
    if !eq(&two) {
        return Err(format!("the same calls gave\n{:?}\nand\n{:?}", String::from_utf8_lossy(b), String::from_utf8_lossy(two.as_bytes())));
    }
    s.hit("reserve");
    let grown = again(s, start, |s| run(s, Chunk::with_settings_and_capacity(set, cap), &mut |c| c.reserve(extra)));
    if !eq(&grown) {
        return Err(format!("capacity {cap} and reserving {extra} changed the output"));
    }
    if pretty == Settings::default().pretty {
        let a = again(s, start, |s| run(s, Chunk::new(), &mut |_| {}));
        let c = again(s, start, |s| run(s, Chunk::with_capacity(cap), &mut |_| {}));
        if !eq(&a) || !eq(&c) {
            return Err("the default constructors give other output".into());
        }
    }
    // Clones go separate ways.
    s.hit("clone");
    let mut saved: Option<(Chunk, Vec<u8>)> = None;
    let cloned = again(s, start, |s| {
        run(s, Chunk::with_settings(set), &mut |c| {
            let mut k = c.clone();
            let before = c.as_bytes().to_vec();
            junk.write(k.indirect(Ref::new(77)));
            saved = Some((k, before));
        })
    });
    if !eq(&cloned) {
        return Err("writing into a clone changed the original".into());
    }
    if let Some((k, before)) = saved {
        let mut want = Chunk::with_settings(set);
        junk.write(want.indirect(Ref::new(77)));
        if k.as_bytes() != [&before[..], want.as_bytes()].concat() {
            return Err("a clone does not hold the original's bytes and its own".into());
        }
    }
    // Writing is local: earlier content of the buffer does not matter.
    let mut before = Chunk::with_settings(set);
    junk.write(before.indirect(Ref::new(78)));
    let prefix = before.as_bytes().to_vec();
    let after = again(s, start, |s| run(s, before, &mut |_| {}));
    if after.as_bytes() != [&prefix[..], b].concat() {
        return Err("earlier content of the chunk changed how later objects are written".into());
    }
    // Both layouts hold the same objects.
    let other = again(s, start, |s| run(s, Chunk::with_settings(Settings { pretty: !pretty }), &mut |_| {}));
    s.note(|| String::from_utf8_lossy(b).into_owned());
    same_objects(&parse_chunk(b)?, &parse_chunk(other.as_bytes())?)?;
    if !one.refs().eq(other.refs()) || one.limits() != other.limits() {
        return Err("ids or limits depend on the layout".into());
    }
    let (p, c) = if pretty { (&one, &other) } else { (&other, &one) };
    if c.len() > p.len() {
        return Err(format!("compact layout has {} bytes, pretty {}", c.len(), p.len()));
    }
    Ok(())
}

fn c26_document(s: &mut Src) -> Result<(), String> {
    s.hit("document");
    let mut h = History::gen(s, 6, 200, false);
    s.nontrivial = !h.steps.is_empty();
    s.note(|| format!("{h:?}"));
    let xref = s.coin();
    let id = Ref::new(h.expected().max_id() + 1);
    let fin = |p: Pdf| if xref { p.finish_with_xref_stream(id) } else { p.finish() };
    let cap = capacity(s);
    let set = Settings { pretty: h.pretty };
    let one = fin(h.build());
    if one != fin(h.build()) {
        return Err("the same calls gave different files".into());
    }
    let mut p = Pdf::with_settings_and_capacity(set, cap);
    p.reserve(cap);
    h.apply_to(&mut p);
    if fin(p) != one {
        return Err(format!("capacity {cap} changed the file"));
    }
    if h.pretty == Settings::default().pretty {
        for mut p in [Pdf::new(), Pdf::with_capacity(cap)] {
            h.apply_to(&mut p);
            if fin(p) != one {
                return Err("the default constructors give another file".into());
            }
        }
    }
    // The other layout: same objects and trailer.
    let e = h.expected();
    h.pretty = !h.pretty;
    let two = fin(h.build());
    for (b, what) in [(&one, "one"), (&two, "other")] {
        let doc = if xref { read_stream_doc(b, |d| d.to_vec())? } else { read_table_doc(b)? };
        let skip = if xref { Some(id.get() as i64) } else { None };
        e.check_objects(&doc.objects, skip).map_err(|e| format!("{what} layout: {e}"))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C27

fn c27(s: &mut Src) -> Result<(), String> {
    s.nontrivial = true;
    match s.below(4) {
        0 => {
            s.hit("ref");
            let id = s.id();
            let near = id.saturating_add(s.range(-1, 1) as i32).max(1);
            let (a, b) = (Ref::new(id), Ref::new(near));
            s.note(|| format!("{a:?} {b:?}"));
            if a.get() != id {
                return Err(format!("Ref::new({id}).get() is {}", a.get()));
            }
            use std::collections::HashSet;
            let set: HashSet<Ref> = [a, b].into_iter().collect();
            let ok = a.cmp(&b) == id.cmp(&near)
                && (a == b) == (id == near)
                && set.len() == if id == near { 1 } else { 2 }
                && a.partial_cmp(&b) == Some(id.cmp(&near));
            if !ok {
                return Err(format!("{id} and {near} do not compare or hash like their references"));
            }
            if id == i32::MAX {
                s.hit("last id");
                if guarded(|| a.next()).is_ok() {
                    return Err("there is a reference after the last".into());
                }
                let mut x = a;
                if guarded(|| x.bump()).is_ok() {
                    return Err("the last reference was bumped".into());
                }
                return Ok(());
            }
            if a.next().get() != id + 1 {
                return Err(format!("the reference after {id} is {}", a.next().get()));
            }
            let mut x = a;
            let n = s.usize(1, 5).min((i32::MAX - id) as usize);
            let got: Vec<i32> = (0..n).map(|_| x.bump().get()).collect();
            let want: Vec<i32> = (0..n as i32).map(|k| id + k).collect();
            if got != want || x.get() != id + n as i32 {
                return Err(format!("bumping {id} gave {got:?} and left {}", x.get()));
            }
            Ok(())
        }
        1 => {
            s.hit("rect");
            let [x1, y1, x2, y2] = s.rect_sides();
            s.note(|| format!("{x1:?} {y1:?} {x2:?} {y2:?}"));
            let n = Rect::new(x1, y1, x2, y2);
            if n != (Rect { x1, y1, x2, y2 }) || n.x1 != x1 || n.y1 != y1 || n.x2 != x2 || n.y2 != y2 {
                return Err(format!("{n:?} does not keep its coordinates"));
            }
            if n.to_quad_points() != [x1, y1, x2, y1, x2, y2, x1, y2] {
                return Err(format!("corners of {n:?} are {:?}", n.to_quad_points()));
            }
            let pretty = s.pretty();
            let mut c = Chunk::with_settings(Settings { pretty });
            c.indirect(Ref::new(1)).primitive(n);
            let v = parse_chunk(c.as_bytes())?;
            check(&M::Arr([x1, y1, x2, y2].map(M::Num).to_vec()), &v[0].value)
        }
        2 => {
            s.hit("buf");
            let mut c = Content::with_settings(settings(s));
            for _ in 0..s.usize(0, 5) {
                content_op(s, &mut c);
            }
            let all = c.as_bytes().to_vec();
            let len = c.len();
            let buf = c.finish();
            let v = buf.as_slice().to_vec();
            s.note(|| format!("{} bytes", v.len()));
            let copy = buf.clone();
            // Finishing only drops a final separator.
            let trimmed = all.strip_suffix(b"\n").unwrap_or(&all);
            let ok = len == all.len()
                && v == trimmed
                && &*buf == &v[..]
                && buf.len() == v.len()
                && AsRef::<[u8]>::as_ref(&*buf) == &v[..]
                && copy == buf
                && copy.limits() == buf.limits()
                && copy.into_vec() == v;
            // Bytes can be appended to a buffer in two ways.
            let more: Vec<u8> = s.bytes(60);
            let cut = s.usize(0, more.len());
            let mut longer = buf.clone();
            longer.extend(lz(more[..cut].iter().copied()));
            longer.extend(lz(&more[cut..]));
            if longer.as_slice() != [&v[..], &more[..]].concat() || longer.limits() != buf.limits() {
                return Err(format!("appending {more:02x?} to {v:02x?} gave {:02x?}", longer.as_slice()));
            }
            let mut out: Vec<u8> = Vec::new();
            out.extend(buf.iter());
            if !ok || out != v || buf.into_vec() != v {
                return Err("views of a buffer disagree".into());
            }
            Ok(())
        }
        _ => {
            s.hit("chunk");
            let mut c = Chunk::with_settings(settings(s));
            let n = s.count(0, 6);
            let mut ids = Vec::new();
            for _ in 0..n {
                let before = c.as_bytes().to_vec();
                let it = Item { id: s.id(), body: Body::gen(s, 60) };
                it.write(&mut c);
                ids.push(it.id);
                if !c.as_bytes().starts_with(&before) {
                    return Err("writing an object changed earlier bytes".into());
                }
                if c.len() != c.as_bytes().len() || c.len() <= before.len() {
                    return Err("the length of a chunk is not that of its bytes".into());
                }
                let it = c.refs();
                if it.len() != ids.len() || !it.map(|r| r.get()).eq(ids.iter().copied()) {
                    return Err(format!("ids {:?} written, {:?} listed", ids, c.refs().collect::<Vec<_>>()));
                }
            }
            s.note(|| format!("ids {ids:?}"));
            let k = c.clone();
            if k.as_bytes() != c.as_bytes() || !k.refs().eq(c.refs()) || k.limits() != c.limits() {
                return Err("a clone differs from its original".into());
            }
            Ok(())
        }
    }
}
