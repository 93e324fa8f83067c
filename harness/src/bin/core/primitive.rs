//! C04 - C08: numbers, strings, names, text strings, dates.

use pdf_writer::*;
use vharness::engine::{Prop, Src};
use vharness::gen::*;
use vharness::pdf::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            run: c04,
            quick: 96_000,
            thorough: 1 << 20,
            rule: "case i writes 4096 f32 and 4096 i32 bit patterns: every sign/exponent/top mantissa bits with low 20 bits permuted by i (2^20 cases enumerate all patterns), plus boundary-biased numbers in generated neighbourhoods; every case is non-trivial",
            assumptions: &["floats are finite (documented domain)"],
            must_hit: &["pretty", "compact", "neighbourhood"],
        },
        Prop {
            id: "C05",
            run: c05,
            quick: 1_440_000,
            thorough: 24_000_000,
            rule: "the first 300 cases enumerate all byte strings of length 0..2; the rest are generated from 8 byte classes with boundary lengths, some long; non-trivial: non-empty",
            assumptions: &[],
            must_hit: &["literal", "hex", "long"],
        },
        Prop {
            id: "C06",
            run: c06,
            quick: 1_080_000,
            thorough: 18_000_000,
            rule: "the first 300 cases enumerate all names of length 0..2; the rest generate names as values, keys, array items and operands in front of random objects, in both layouts; non-trivial: every case",
            assumptions: &[],
            must_hit: &["empty", "key", "array", "operand"],
        },
        Prop {
            id: "C07",
            run: c07,
            quick: 1_080_000,
            thorough: 12_000_000,
            rule: "the first 4352 cases enumerate all code points in blocks of 256, alone and in context; the rest generate plain and language-tagged text; non-trivial: non-empty text",
            assumptions: &["language and region codes are two ASCII characters, as their types require"],
            must_hit: &["plain", "tagged", "region"],
        },
        Prop {
            id: "C08",
            run: c08,
            quick: 7_200_000,
            thorough: 40_000_000,
            rule: "random setter sequences (in order, out of order, repeated) with boundary and random values; non-trivial: at least one setter",
            assumptions: &[],
            must_hit: &["complete", "truncated", "offset"],
        },
    ]
}

/// Write one object into a chunk; return the bytes between `obj` and `endobj`.
pub fn one(pretty: bool, f: impl FnOnce(Obj<'_>)) -> Result<Indirect, String> {
    let mut c = Chunk::with_settings(Settings { pretty });
    f(c.indirect(Ref::new(1)));
    let mut v = parse_chunk(c.as_bytes())?;
    if v.len() != 1 {
        return Err(format!("{} objects instead of one", v.len()));
    }
    Ok(v.remove(0))
}

fn valid_number(t: &[u8]) -> bool {
    let d = match t.first() {
        Some(b'+' | b'-') => &t[1..],
        _ => t,
    };
    let mut dot = false;
    let mut digit = false;
    for &c in d {
        match c {
            b'.' if !dot => dot = true,
            b'0'..=b'9' => digit = true,
            _ => return false,
        }
    }
    digit
}

/// Split the interior of a flat array of numbers into tokens.
fn tokens(b: &[u8]) -> Result<Vec<&[u8]>, String> {
    let a = b.iter().position(|&c| c == b'[').ok_or("no array")?;
    let e = b.iter().rposition(|&c| c == b']').ok_or("no array end")?;
    Ok(b[a + 1..e].split(|&c| is_ws(c)).filter(|t| !t.is_empty()).collect())
}

fn c04(s: &mut Src) -> Result<(), String> {
    s.nontrivial = true;
    let i = s.index;
    // A permutation of the low 20 bits over the case index.
    let low = (i.wrapping_mul(0x9E375) & 0xFFFFF) as u32;
    let pretty = i % 2 == 0;
    s.hit(if pretty { "pretty" } else { "compact" });
    {
        let mut c = Chunk::with_settings_and_capacity(Settings { pretty }, 1 << 16);
        let mut want: Vec<f32> = Vec::with_capacity(4096);
        let mut a = c.indirect(Ref::new(1)).array();
        for k in 0..4096u32 {
            let v = f32::from_bits(k << 20 | low);
            if v.is_finite() {
                a.item(v);
                want.push(v);
            }
        }
        a.finish();
        let got = tokens(c.as_bytes())?;
        if got.len() != want.len() {
            return Err(format!("{} floats written, {} tokens read", want.len(), got.len()));
        }
        for (t, v) in got.iter().zip(&want) {
            let text = std::str::from_utf8(t).unwrap_or("");
            let back: f32 = if valid_number(t) { text.parse().unwrap_or(f32::NAN) } else { f32::NAN };
            let as_int = *v == v.trunc() && v.abs() < 2147483648.0;
            let ok = back == *v && (!as_int || (is_int_token(text) && text.parse::<i64>().ok() == Some(*v as i64)));
            if !ok {
                return Err(format!("float {v:?} (bits {:08x}) was written as {text:?}", v.to_bits()));
            }
        }
    }
    {
        let mut c = Chunk::with_settings_and_capacity(Settings { pretty }, 1 << 16);
        let mut a = c.indirect(Ref::new(1)).array();
        for k in 0..4096u32 {
            a.item((k << 20 | low) as i32);
        }
        a.finish();
        let got = tokens(c.as_bytes())?;
        if got.len() != 4096 {
            return Err(format!("4096 integers written, {} tokens read", got.len()));
        }
        for (k, t) in got.iter().enumerate() {
            let v = ((k as u32) << 20 | low) as i32;
            let text = std::str::from_utf8(t).unwrap_or("");
            if !(is_int_token(text) && text.parse::<i64>().ok() == Some(v as i64)) {
                return Err(format!("integer {v} was written as {text:?}"));
            }
        }
    }
    if i >= 40_000 && i % 64 != 0 {
        return Ok(());
    }
    // Numbers in every kind of neighbourhood.
    s.hit("neighbourhood");
    let (n, v, r) = (s.num(), s.int(), s.rect());
    let neigh = Tree::gen(s, 1);
    let after = Tree::gen(s, 1);
    let pretty = s.pretty();
    s.note(|| format!("float {n:?} int {v} rect {r:?} between {neigh:?} and {after:?}"));
    let ctx = |e: String| format!("float {n:?}, integer {v}, between {neigh:?} and {after:?} (pretty={pretty}): {e}");
    let o = one(pretty, |o| {
        let mut a = o.array();
        neigh.write(a.push());
        a.item(n);
        a.item(v);
        after.write(a.push());
        a.item(v).item(n).item(r);
        a.push().dict().pair(Name(b"K"), n).pair(Name(b""), v).pair(Name(b"L"), &n);
    })
    .map_err(ctx)?;
    let m = M::Arr(vec![
        neigh.model(),
        M::Num(n),
        M::Int(v as i64),
        after.model(),
        M::Int(v as i64),
        M::Num(n),
        rect_m(r),
        M::Dict(vec![
            (b"K".to_vec(), M::Num(n)),
            (b"".to_vec(), M::Int(v as i64)),
            (b"L".to_vec(), M::Num(n)),
        ]),
    ]);
    check(&m, &o.value).map_err(ctx)?;
    let o = one(pretty, |o| o.primitive(n)).map_err(ctx)?;
    check(&M::Num(n), &o.value).map_err(ctx)?;
    let o = one(pretty, |o| o.primitive(v)).map_err(ctx)?;
    check(&M::Int(v as i64), &o.value).map_err(ctx)?;
    let mut c = Content::with_settings(Settings { pretty });
    c.op("op").operand(n).operand(v).operand(r).operands([v, v]).operands([n]);
    let b = c.finish();
    let ops = parse_content(&b).map_err(ctx)?;
    let want = vec![M::Num(n), M::Int(v as i64), rect_m(r), M::Int(v as i64), M::Int(v as i64), M::Num(n)];
    if ops.len() != 1 || ops[0].0 != "op" {
        return Err(ctx(format!("operation reads as {ops:?}")));
    }
    check(&M::Arr(want), &M::Arr(ops[0].1.clone())).map_err(ctx)
}

fn c05(s: &mut Src) -> Result<(), String> {
    let i = s.index;
    let check_one = |v: &[u8], pretty: bool| -> Result<(), String> {
        let o = one(pretty, |o| {
            let mut a = o.array();
            a.item(Str(v)).item(7).item(Str(v)).item(Name(b"R"));
        })
        .map_err(|e| format!("string {:?}: {e}", String::from_utf8_lossy(v)))?;
        let m = M::Arr(vec![M::Str(v.to_vec()), M::Int(7), M::Str(v.to_vec()), name("R")]);
        check(&m, &o.value).map_err(|e| format!("string {v:02x?}: {e}"))
    };
    if i < 256 {
        check_one(&[i as u8], true)?;
        for b in 0..=255u8 {
            check_one(&[i as u8, b], b % 2 == 0)?;
        }
        s.nontrivial = true;
        return Ok(());
    }
    if i < 300 {
        check_one(&[], i % 2 == 0)?;
        // Every byte next to the bytes that matter.
        for b in 0..=255u8 {
            for x in *b"()\\\r\n0178" {
                check_one(&[x, b, x], true)?;
                check_one(&[b, x, b], false)?;
            }
            check_one(&[b'\\', b, b'0', b'1'], true)?;
            check_one(&[b, b'0', b'0', b'7'], true)?;
            check_one(&[b, b'8', b'9'], true)?;
        }
        return Ok(());
    }
    let mut v = s.bytes(1000);
    if s.one_in(60) {
        // Long strings, a repeated motif.
        let n = *s.pick(&[255usize, 256, 257, 1000, 4095, 4096, 32767, 32768, 65535, 65536, 70000]);
        if v.is_empty() {
            v.push(b'(');
        }
        v = v.iter().copied().cycle().take(n).collect();
        s.hit("long");
    }
    if s.one_in(6) {
        // Parentheses, balanced or just not.
        let n = s.usize(1, 40);
        v = (0..n).map(|_| if s.coin() { b'(' } else { b')' }).collect();
        if s.coin() {
            let d = v.iter().filter(|&&c| c == b'(').count() as i64 - v.iter().filter(|&&c| c == b')').count() as i64;
            for _ in 0..d.max(0) {
                v.push(b')');
            }
        }
    }
    s.nontrivial = !v.is_empty();
    s.hit(if v.is_ascii() { "literal" } else { "hex" });
    let pretty = s.pretty();
    s.note(|| format!("{:?}", String::from_utf8_lossy(&v)));
    check_one(&v, pretty)?;
    let next = Tree::gen(s, 1);
    let o = one(pretty, |o| {
        let mut d = o.dict();
        d.pair(Name(b"A"), Str(&v));
        next.write(d.insert(Name(b"B")));
        let mut a = d.insert(Name(b"C")).array();
        next.write(a.push());
        a.item(Str(&v));
        next.write(a.push());
    })?;
    let m = D::new()
        .with("A", M::Str(v.clone()))
        .with("B", next.model())
        .with("C", M::Arr(vec![next.model(), M::Str(v.clone()), next.model()]))
        .m();
    check(&m, &o.value)?;
    // A string as an operand.
    let mut c = Content::with_settings(Settings { pretty });
    c.show(Str(&v)).next_line_show(Str(&v)).op("x").operand(Str(&v)).operand(1);
    let ops = parse_content(&c.finish())?;
    let want = [("Tj", 1), ("'", 1), ("x", 2)];
    if ops.len() != 3 {
        return Err(format!("3 operations written, {} read", ops.len()));
    }
    for ((o, args), (w, n)) in ops.iter().zip(want) {
        if o != w || args.len() != n {
            return Err(format!("operation {w} reads as {o} with {} operands", args.len()));
        }
        check(&M::Str(v.clone()), &args[0])?;
    }
    // The string as an indirect object on its own.
    let o = one(pretty, |o| o.primitive(Str(&v)))?;
    check(&M::Str(v), &o.value)
}

fn c06(s: &mut Src) -> Result<(), String> {
    let i = s.index;
    s.nontrivial = true;
    let small = |v: &[u8], pretty: bool| -> Result<(), String> {
        let o = one(pretty, |o| {
            let mut d = o.dict();
            d.pair(Name(v), Name(v));
            d.pair(Name(v), 5);
            let mut a = d.insert(Name(v)).array();
            a.item(Name(v)).item(5).item(Name(v)).item(true).item(Name(v)).item(Ref::new(3)).item(Name(v));
        })
        .map_err(|e| format!("name {v:02x?} (pretty={pretty}): {e}"))?;
        let n = || M::Name(v.to_vec());
        let m = M::Dict(vec![
            (v.to_vec(), n()),
            (v.to_vec(), M::Int(5)),
            (v.to_vec(), M::Arr(vec![n(), M::Int(5), n(), M::Bool(true), n(), M::Ref(3), n()])),
        ]);
        check(&m, &o.value).map_err(|e| format!("name {v:02x?} (pretty={pretty}): {e}"))
    };
    if i < 256 {
        small(&[i as u8], false)?;
        small(&[i as u8], true)?;
        for b in 0..=255u8 {
            small(&[i as u8, b], b % 2 == 0)?;
        }
        return Ok(());
    }
    if i < 258 {
        s.hit("empty");
        small(&[], i % 2 == 0)?;
    }
    let mut v = s.name_bytes();
    if s.one_in(50) && !v.is_empty() {
        let n = *s.pick(&[126usize, 127, 128, 129, 255, 256, 1000, 4096, 65536]);
        v = v.iter().copied().cycle().take(n).collect();
    }
    if v.is_empty() {
        s.hit("empty");
    }
    let pretty = s.pretty();
    let k = s.usize(0, 4);
    let nb: Vec<Tree> = (0..k + 1).map(|_| Tree::gen(s, 1)).collect();
    s.note(|| format!("name {:?} followed by {nb:?}", String::from_utf8_lossy(&v)));
    let ctx = |e: String| format!("name {:?} before {nb:?} (pretty={pretty}): {e}", String::from_utf8_lossy(&v));
    s.hit("array");
    let mut want = Vec::new();
    let o = one(pretty, |o| {
        let mut a = o.array();
        for t in &nb {
            a.item(Name(&v));
            t.write(a.push());
            want.push(M::Name(v.clone()));
            want.push(t.model());
        }
        a.item(Name(&v));
        want.push(M::Name(v.clone()));
    })
    .map_err(ctx)?;
    check(&M::Arr(want.clone()), &o.value).map_err(ctx)?;
    s.hit("key");
    let mut wd = Vec::new();
    let o = one(pretty, |o| {
        let mut d = o.dict();
        for t in &nb {
            t.write(d.insert(Name(&v)));
            d.pair(Name(b"K"), Name(&v));
            wd.push((v.clone(), t.model()));
            wd.push((b"K".to_vec(), M::Name(v.clone())));
        }
        let mut a = d.insert(Name(&v)).array();
        a.item(Name(&v));
        wd.push((v.clone(), M::Arr(vec![M::Name(v.clone())])));
    })
    .map_err(ctx)?;
    check(&M::Dict(wd), &o.value).map_err(ctx)?;
    s.hit("operand");
    let mut c = Content::with_settings(Settings { pretty });
    let mut op = c.op("Xx");
    for t in &nb {
        op.operand(Name(&v));
        t.write(op.obj());
    }
    op.operand(Name(&v));
    op.finish();
    c.x_object(Name(&v)).set_font(Name(&v), 3.0).save_state();
    let ops = parse_content(&c.finish()).map_err(ctx)?;
    let exp = vec![
        ("Xx", want),
        ("Do", vec![M::Name(v.clone())]),
        ("Tf", vec![M::Name(v.clone()), M::Int(3)]),
        ("q", vec![]),
    ];
    if ops.len() != exp.len() {
        return Err(ctx(format!("operations read as {ops:?}")));
    }
    for ((o, a), (eo, ea)) in ops.into_iter().zip(exp) {
        if o != eo {
            return Err(ctx(format!("operator {eo} reads as {o}")));
        }
        check(&M::Arr(ea), &M::Arr(a)).map_err(ctx)?;
    }
    let o = one(pretty, |o| o.primitive(Name(&v))).map_err(ctx)?;
    check(&M::Name(v.clone()), &o.value).map_err(ctx)
}

fn c07(s: &mut Src) -> Result<(), String> {
    let i = s.index;
    if i < 0x1100 {
        s.nontrivial = true;
        let mut all = String::new();
        for c in (i as u32 * 256)..(i as u32 * 256 + 256) {
            let Some(c) = char::from_u32(c) else { continue };
            all.push(c);
            for t in [c.to_string(), format!("a{c}b"), format!("{c}{c}")] {
                let o = one(true, |o| o.primitive(TextStr(&t)))?;
                check(&M::Text(t.clone()), &o.value).map_err(|e| format!("text {t:?}: {e}"))?;
            }
            let id = LanguageIdentifier::new(*b"en", None);
            let t = c.to_string();
            let o = one(true, |o| o.primitive(TextStrWithLang(&[(id, &t)])))?;
            check(&M::LangText(vec![(*b"en", None, t.clone())]), &o.value).map_err(|e| format!("tagged {t:?}: {e}"))?;
        }
        let o = one(true, |o| o.primitive(TextStr(&all)))?;
        return check(&M::Text(all), &o.value);
    }
    let mut t = s.text_arg();
    if s.one_in(100) {
        let n = *s.pick(&[255usize, 256, 1000, 4096, 16383, 16384, 32768, 40000]);
        if let TextArg::Plain(p) = &mut t {
            if p.is_empty() {
                p.push('é');
            }
            *p = p.chars().cycle().take(n).collect();
        }
    }
    match &t {
        TextArg::Plain(p) => {
            s.hit("plain");
            s.nontrivial = !p.is_empty();
        }
        TextArg::Lang(v) => {
            s.hit("tagged");
            s.nontrivial = !v.is_empty();
            if v.iter().any(|x| x.1.is_some()) {
                s.hit("region");
            }
        }
    }
    s.note(|| format!("{t:?}"));
    let pretty = s.pretty();
    let next = Tree::gen(s, 1);
    let ctx = |e: String| format!("{t:?} before {next:?}: {e}");
    let o = one(pretty, |o| {
        let mut a = o.array();
        with_text(&t, a.push());
        next.write(a.push());
        let mut d = a.push().dict();
        with_text(&t, d.insert(Name(b"T")));
        next.write(d.insert(Name(b"N")));
    })
    .map_err(ctx)?;
    let m = M::Arr(vec![
        t.model(),
        next.model(),
        D::new().with("T", t.model()).with("N", next.model()).m(),
    ]);
    check(&m, &o.value).map_err(ctx)?;
    // The same through identifiers parsed from text.
    if let TextArg::Lang(v) = &t {
        let st = |b: &[u8; 2]| String::from_utf8(b.to_vec()).unwrap();
        let segs: Vec<(LanguageIdentifier, &str)> = v
            .iter()
            .map(|(l, r, x)| {
                let id = match r {
                    None => LanguageIdentifier::from_lang(&st(l)),
                    Some(r) => LanguageIdentifier::from_lang_region(&st(l), &st(r)),
                };
                id.map(|id| (id, x.as_str())).ok_or_else(|| format!("language {l:?} {r:?} was rejected"))
            })
            .collect::<Result<_, String>>()?;
        let o = one(pretty, |o| o.primitive(TextStrWithLang(&segs)))?;
        check(&t.model(), &o.value).map_err(ctx)?;
    }
    Ok(())
}

fn c08(s: &mut Src) -> Result<(), String> {
    let (d, want) = s.date();
    s.nontrivial = want.len() > 6;
    s.hit(if want.len() < 16 { "truncated" } else { "complete" });
    if want.len() > 17 {
        s.hit("offset");
    }
    s.note(|| String::from_utf8_lossy(&want).into_owned());
    let pretty = s.pretty();
    let next = Tree::gen(s, 0);
    let o = one(pretty, |o| {
        let mut a = o.array();
        a.item(d).item(3).item(d);
        next.write(a.push());
    })?;
    let m = M::Arr(vec![M::Str(want.clone()), M::Int(3), M::Str(want.clone()), next.model()]);
    check(&m, &o.value)?;
    let mut c = Chunk::with_settings(Settings { pretty });
    c.indirect(Ref::new(1)).primitive(d);
    c.indirect(Ref::new(2)).dict().pair(Name(b"ModDate"), d).pair(Name(b"X"), 1);
    let v = parse_chunk(c.as_bytes())?;
    if v.len() != 2 {
        return Err("objects lost".into());
    }
    check(&M::Str(want.clone()), &v[0].value)?;
    check(&D::new().with("ModDate", M::Str(want)).with("X", M::Int(1)).m(), &v[1].value)
}
