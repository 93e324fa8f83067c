//! C01 - C03: finished files.

use pdf_writer::*;
use vharness::docs::*;
use vharness::engine::{guarded, Prop, Src};
use vharness::pdf::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            run: c01,
            quick: 216_000,
            thorough: 3_600_000,
            rule: "a random history of writing objects, merging and renumbering chunks, setting version/marker/file id/catalog/info; non-trivial: at least two objects",
            assumptions: &["object ids up to 2^24 (a table needs one row per id)"],
            must_hit: &["gap", "merge", "renumber", "empty document", "huge id", "large file", "repeated catalog", "typed object"],
        },
        Prop {
            id: "C02",
            run: c02,
            quick: 120_000,
            thorough: 1_500_000,
            rule: "a C01 history finished both with a table and with a cross-reference stream under a random filter and stream id; non-trivial: at least two objects",
            assumptions: &["object ids below 10^6", "one file above 2^32 bytes, sizes around 2^8, 2^16 and 2^24 are targeted"],
            must_hit: &["filtered", "multiple filters", "stream id in a gap", "stream id last", "width boundary", "huge id"],
        },
        Prop {
            id: "C03",
            run: c03,
            quick: 480_000,
            thorough: 9_000_000,
            rule: "a C01 history, half of them with one or more object ids used twice in random places; non-trivial: at least two objects",
            assumptions: &["object ids below 10^6"],
            must_hit: &["duplicate", "no duplicate", "duplicate xref stream id"],
        },
    ]
}

fn note_history(s: &mut Src, h: &History) {
    s.note(|| {
        let e = h.expected();
        format!("pretty={} ids in writing order {:?}, {} steps: {:?}", h.pretty, e.items.iter().map(|i| i.0).collect::<Vec<_>>(), h.steps.len(), h.steps)
    });
}

fn classify(s: &mut Src, h: &History, e: &Expected) {
    if e.items.len() >= 2 {
        s.nontrivial = true;
    }
    if e.items.is_empty() {
        s.hit("empty document");
    }
    if (e.max_id() as usize) > e.items.len() {
        s.hit("gap");
    }
    if e.max_id() > 60_000 {
        s.hit("huge id");
    }
    let mut cats = 0;
    for st in &h.steps {
        match st {
            Step::Part(Part::Merge { .. }) => s.hit("merge"),
            Step::Renumber { .. } => s.hit("renumber"),
            Step::Catalog { .. } => cats += 1,
            _ => {}
        }
    }
    if cats > 1 {
        s.hit("repeated catalog");
    }
}

fn gen_history(s: &mut Src) -> History {
    // Now and then a lot of objects, a huge id or a large file.
    let many = match s.below(20_000) {
        0 => 70_000,
        1..=4 => 9000,
        5..=40 => 1200,
        _ => 25,
    };
    let big = if many > 25 {
        60
    } else if s.one_in(40) {
        200_000
    } else {
        3000
    };
    let huge = s.one_in(8);
    let mut h = History::gen(s, many, big, huge);
    if s.one_in(1500) {
        // One id near a million.
        let id = *s.pick(&[300_000, 999_999, 1_000_000]);
        h.steps.push(Step::Part(Part::Item(Item { id, body: Body::gen(s, 10) })));
    }
    h
}

fn check_table(b: &[u8], e: &Expected) -> Result<Doc, String> {
    let d = read_table_doc(b)?;
    if d.version != e.version || d.marker != e.marker {
        return Err(format!("header has version {:?} marker {:?}, expected {:?} {:?}", d.version, d.marker, e.version, e.marker));
    }
    if d.entries.len() != 1 + e.max_id() as usize {
        return Err(format!("table has {} entries, the largest id is {}", d.entries.len(), e.max_id()));
    }
    e.check_objects(&d.objects, None)?;
    check_free_list(&d.entries)?;
    for (i, x) in d.entries.iter().enumerate() {
        let gen = match x {
            XEntry::Free { gen, .. } | XEntry::Used { gen, .. } => *gen,
        };
        if gen != if i == 0 { 65535 } else { 0 } {
            return Err(format!("entry {i} has generation {gen}"));
        }
    }
    check(&e.trailer(1 + e.max_id() as i64).m(), &d.trailer).map_err(|m| format!("trailer: {m}"))?;
    Ok(d)
}

/// Ids for which tables have more than 2^24 rows.
const VAST_ID: i32 = (1 << 24) + 5;

/// A document of more than 2^32 bytes: three large streams of zeros and small
/// objects before, between, and behind them, the last ones merged.
fn giant(pretty: bool) -> (Pdf, Vec<(i32, usize)>) {
    let zeros = vec![0u8; 1 << 30 | 1 << 29];
    let mut pdf = Pdf::with_settings(Settings { pretty });
    let mut at = Vec::new();
    let mut mark = |pdf: &Pdf, id: i32| at.push((id, pdf.len()));
    mark(&pdf, 2);
    pdf.indirect(Ref::new(2)).primitive(17);
    for id in [5, 3, 9] {
        mark(&pdf, id);
        pdf.stream(Ref::new(id), &zeros);
        mark(&pdf, id + 30);
        pdf.indirect(Ref::new(id + 30)).primitive(id);
    }
    let mut chunk = Chunk::with_settings(Settings { pretty });
    chunk.indirect(Ref::new(4)).array().item(Ref::new(2));
    let inner = chunk.len();
    chunk.indirect(Ref::new(12)).primitive(true);
    mark(&pdf, 4);
    at.push((12, pdf.len() + inner));
    pdf.extend(&chunk);
    at.push((1, pdf.len()));
    pdf.catalog(Ref::new(1)).pages(Ref::new(4));
    (pdf, at)
}

/// Whether the rows for the document of `giant` locate its objects.
fn check_giant(b: &[u8], at: &[(i32, usize)], rows: &[XEntry], xid: Option<(i32, usize)>) -> Result<(), String> {
    let mut want: Vec<(i32, usize)> = at.to_vec();
    want.extend(xid);
    for (id, off) in &want {
        let head = format!("{id} 0 obj");
        let pos = off + b[*off..].iter().position(|c| !is_ws(*c)).unwrap_or(0);
        if !b[pos..].starts_with(head.as_bytes()) {
            return Err(format!("object {id} is not at {off} where it was written"));
        }
        if rows.get(*id as usize) != Some(&XEntry::Used { offset: pos as u64, gen: 0 }) {
            return Err(format!("object {id} is at {pos}, its row says {:?}", rows.get(*id as usize)));
        }
    }
    let used = rows.iter().filter(|r| matches!(r, XEntry::Used { .. })).count();
    if used != want.len() {
        return Err(format!("{} objects written, {used} rows in use", want.len()));
    }
    check_free_list(rows)
}

fn c01_giant() -> Result<(), String> {
    let (pdf, at) = giant(false);
    let out = pdf.finish();
    let (_, rows, _) = read_table(&out)?;
    check_giant(&out, &at, &rows, None)
}

/// A file of more than 2^32 bytes, to which objects are added behind that
/// point by merging and, if asked for, by renumbering.
pub fn giant_grown(renumber: bool) -> Result<(), String> {
    let (mut pdf, mut at) = giant(false);
    if renumber {
        let mut chunk = Chunk::new();
        chunk.indirect(Ref::new(1)).array().item(Ref::new(2));
        chunk.stream(Ref::new(2), b"1 0 R").pair(Name(b"N"), Ref::new(1));
        let before = pdf.len();
        chunk.renumber_into(&mut pdf, |r| Ref::new(r.get() + 100));
        let tail = &pdf.as_bytes()[before..];
        let objs = parse_chunk(tail)?;
        let ok = objs.len() == 2
            && check(&M::Arr(vec![M::Ref(102)]), &objs[0].value).is_ok()
            && check(&D::new().with("Length", M::Int(5)).with("N", M::Ref(101)).m(), &objs[1].value).is_ok()
            && objs[1].stream.as_deref() == Some(b"1 0 R");
        if !ok {
            return Err(format!("renumbered objects read {objs:?}"));
        }
        for o in &objs {
            at.push((o.id as i32, before + o.start));
        }
    }
    let out = pdf.finish();
    let (_, rows, _) = read_table(&out)?;
    check_giant(&out, &at, &rows, None)
}

fn c02_giant() -> Result<(), String> {
    let (pdf, at) = giant(true);
    let out = pdf.finish_with_xref_stream(Ref::new(70));
    let (xr, rows, start, _) = read_xref_stream(&out, |d| d.to_vec())?;
    if xr.id != 70 {
        return Err(format!("startxref points at object {}", xr.id));
    }
    check_giant(&out, &at, &rows, Some((70, start)))
}

fn c01(s: &mut Src) -> Result<(), String> {
    if s.huge(1) {
        s.note(|| "a document of more than 2^32 bytes".into());
        return c01_giant();
    }
    let mut h = gen_history(s);
    if s.huge(2) {
        h.steps.push(Step::Part(Part::Item(Item { id: VAST_ID, body: Body::gen(s, 10) })));
    }
    let e = h.expected();
    classify(s, &h, &e);
    note_history(s, &h);
    let pdf = h.build();
    let refs: Vec<i32> = pdf.refs().map(|r| r.get()).collect();
    let ids: Vec<i32> = e.items.iter().map(|i| i.0).collect();
    if refs != ids {
        return Err(format!("reported ids {refs:?}, written {ids:?}"));
    }
    let before = pdf.as_bytes().to_vec();
    let len = pdf.len();
    let out = pdf.finish();
    if len != before.len() || !out.starts_with(&before) {
        return Err("finishing rewrote bytes already written".into());
    }
    if out.len() > 65536 {
        s.hit("large file");
    }
    check_table(&out, &e)?;
    Ok(())
}

const FILTERS: [(Filter, &str); 10] = [
    (Filter::AsciiHexDecode, "ASCIIHexDecode"),
    (Filter::Ascii85Decode, "ASCII85Decode"),
    (Filter::LzwDecode, "LZWDecode"),
    (Filter::FlateDecode, "FlateDecode"),
    (Filter::RunLengthDecode, "RunLengthDecode"),
    (Filter::CcittFaxDecode, "CCITTFaxDecode"),
    (Filter::Jbig2Decode, "JBIG2Decode"),
    (Filter::DctDecode, "DCTDecode"),
    (Filter::JpxDecode, "JPXDecode"),
    (Filter::Crypt, "Crypt"),
];

fn unhex(b: &[u8]) -> Vec<u8> {
    let d = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
    b.chunks(2).map(|c| d(c[0]) << 4 | d(*c.get(1).unwrap_or(&b'0'))).collect()
}

/// Append a filler stream so that the file reaches `target` bytes, if it can.
fn pad_to(h: &mut History, id: i32, target: usize) -> bool {
    let base = h.build().len();
    let mut n = target.saturating_sub(base + 60);
    for _ in 0..6 {
        let mut g = h.clone();
        g.steps.push(filler(id, n));
        let len = g.build().len();
        if len == target {
            *h = g;
            return true;
        }
        let want = n as i64 + target as i64 - len as i64;
        if want < 0 {
            return false;
        }
        n = want as usize;
    }
    h.steps.push(filler(id, n));
    true
}

fn filler(id: i32, n: usize) -> Step {
    Step::Part(Part::Item(Item { id, body: Body::Stream { dict: vec![], data: vec![b'x'; n] } }))
}

fn c02(s: &mut Src) -> Result<(), String> {
    if s.huge(1) {
        s.note(|| "a document of more than 2^32 bytes".into());
        return c02_giant();
    }
    let mut h = gen_history(s);
    let used: Vec<i32> = h.expected().items.iter().map(|i| i.0).collect();
    let max = h.expected().max_id();
    if s.one_in(6) {
        let mut id = s.range(1, 40) as i32;
        while used.contains(&id) {
            id += 1;
        }
        let t = match s.below(30) {
            0 => 1i64 << 24,
            1..=12 => 256,
            _ => 65536,
        };
        let target = (t + s.range(-3, 3)) as usize;
        if pad_to(&mut h, id, target) {
            s.hit("width boundary");
        }
    }
    let e = h.expected();
    let used: Vec<i32> = e.items.iter().map(|i| i.0).collect();
    classify(s, &h, &e);
    let mut xid = match s.below(4) {
        0 | 1 => e.max_id() + 1,
        2 => s.range(1, 1 + e.max_id() as i64) as i32,
        _ => e.max_id() + s.range(1, 300) as i32,
    };
    if s.one_in(120) {
        xid = s.range(65_530, 70_000) as i32;
    }
    if s.huge(2) {
        xid = VAST_ID;
    }
    while used.contains(&xid) {
        xid += 1;
    }
    s.hit(if xid > max { "stream id last" } else { "stream id in a gap" });
    note_history(s, &h);
    let kind = s.below(5);
    let fs: Vec<usize> = (0..s.usize(0, 4)).map(|_| s.usize(0, 9)).collect();
    let junk = s.bytes(200);
    s.note(|| format!("xref id {xid}, filter mode {kind}"));

    let table = h.build().finish();
    let td = check_table(&table, &e).map_err(|m| format!("table: {m}"))?;

    let mut seen: Option<Vec<u8>> = None;
    let mut calls = 0;
    let mut returned: Vec<u8> = Vec::new();
    let pdf = h.build();
    let body = pdf.as_bytes().to_vec();
    let mut filter_m: Option<M> = None;
    let out = match kind {
        0 => pdf.finish_with_xref_stream(Ref::new(xid)),
        _ => {
            s.hit("filtered");
            pdf.finish_with_xref_stream_and_filter(Ref::new(xid), |raw| {
                calls += 1;
                seen = Some(raw.to_vec());
                returned = match kind {
                    1 => raw.to_vec(),
                    2 => raw.iter().flat_map(|b| format!("{b:02X}").into_bytes()).collect(),
                    3 => junk.clone(),
                    _ => raw.iter().rev().map(|b| b ^ 0x5a).collect(),
                };
                let f = if fs.len() == 1 && kind != 4 {
                    let (f, n) = FILTERS[fs[0]];
                    filter_m = Some(name(n));
                    XRefFilter::Single(f)
                } else {
                    filter_m = Some(M::Arr(fs.iter().map(|&i| name(FILTERS[i].1)).collect()));
                    XRefFilter::Multiple(fs.iter().map(|&i| FILTERS[i].0).collect())
                };
                (returned.clone(), f)
            })
        }
    };
    if fs.len() > 1 && kind != 0 {
        s.hit("multiple filters");
    }
    if kind != 0 && calls != 1 {
        return Err(format!("the filter ran {calls} times"));
    }
    if !out.starts_with(&body) {
        return Err("finishing rewrote bytes already written".into());
    }
    // Decode: plain rows, or whatever the filter was given.
    let mut stored = Vec::new();
    let d = read_stream_doc(&out, |data| {
        stored = data.to_vec();
        match kind {
            0 | 1 => data.to_vec(),
            2 => unhex(data),
            3 => seen.clone().unwrap(),
            _ => data.iter().rev().map(|b| b ^ 0x5a).collect(),
        }
    })?;
    if kind != 0 {
        if stored != returned {
            return Err("stored stream data is not what the filter returned".into());
        }
        if d.xref_data != seen {
            return Err("decoded rows are not the bytes handed to the filter".into());
        }
    }
    if d.version != e.version || d.marker != e.marker {
        return Err("header differs".into());
    }
    let size = 1 + e.max_id().max(xid) as i64;
    if d.entries.len() as i64 != size {
        return Err(format!("{} rows, the largest id is {}", d.entries.len(), size - 1));
    }
    e.check_objects(&d.objects, Some(xid as i64))?;
    check_free_list(&d.entries)?;
    for (i, x) in d.entries.iter().enumerate() {
        match x {
            XEntry::Free { gen, .. } | XEntry::Used { gen, .. } if *gen != if i == 0 { 65535 } else { 0 } => {
                return Err(format!("row {i} has generation {gen}"));
            }
            XEntry::Used { offset, .. } if i == xid as usize => {
                if *offset as usize != d.startxref {
                    return Err(format!("the stream's own row says {offset}, startxref {}", d.startxref));
                }
            }
            // The same objects at the same places as in the table.
            XEntry::Used { .. } => {
                if td.entries.get(i) != Some(x) {
                    return Err(format!("row {i} is {x:?}, the table has {:?}", td.entries.get(i)));
                }
            }
            XEntry::Free { .. } => {}
        }
    }
    let mut ed = e.trailer(size);
    ed.put("Type", name("XRef"));
    ed.put("Length", M::Int(stored.len() as i64));
    if let Some(f) = filter_m {
        ed.put("Filter", f);
    }
    let Some(w) = get(&d.trailer, "W") else { return Err("no /W".into()) };
    ed.put("W", M::Arr(match w {
        M::Arr(v) => v.iter().map(|x| int_of(Some(x)).map_or(M::Null, M::Int)).collect(),
        _ => vec![],
    }));
    check(&ed.m(), &d.trailer).map_err(|m| format!("xref stream dictionary: {m}"))
}

fn c03(s: &mut Src) -> Result<(), String> {
    let mut h = gen_history(s);
    let mut xid: Option<i32> = None;
    let with_stream = s.coin();
    let max = h.expected().max_id();
    if with_stream {
        xid = Some(if s.below(3) == 0 { s.range(1, 1 + max as i64) as i32 } else { max + s.range(1, 3) as i32 });
    }
    let dup = if h.expected().items.is_empty() { 0 } else { s.below(5) };
    // Insert a second use of one of the ids somewhere.
    let times = match dup {
        0 | 1 => 0,
        4 => 2,
        _ => 1,
    };
    for _ in 0..times {
        let items = h.expected().items;
        let id = items[s.usize(0, items.len() - 1)].0;
        let st = match s.below(5) {
            0 => Step::Catalog { id, pages: 1 },
            1 => Step::Info { id, title: "x".into() },
            2 => Step::Part(Part::Merge {
                pretty: s.pretty(),
                parts: vec![Part::Item(Item { id, body: Body::gen(s, 50) })],
            }),
            _ => Step::Part(Part::Item(Item { id, body: Body::gen(s, 50) })),
        };
        let at = s.usize(0, h.steps.len());
        h.steps.insert(at, st);
    }
    let e = h.expected();
    classify(s, &h, &e);
    note_history(s, &h);
    let mut ids: Vec<i32> = e.items.iter().map(|i| i.0).collect();
    if let Some(x) = xid {
        if ids.contains(&x) {
            s.hit("duplicate xref stream id");
        }
        ids.push(x);
    }
    ids.sort();
    let dups: Vec<i32> = ids.windows(2).filter(|w| w[0] == w[1]).map(|w| w[0]).collect();
    let pdf = h.build();
    let r = guarded(|| match xid {
        None => pdf.finish(),
        Some(x) => pdf.finish_with_xref_stream(Ref::new(x)),
    });
    match r {
        Ok(_) if dups.is_empty() => {
            s.hit("no duplicate");
            Ok(())
        }
        Ok(_) => Err(format!("ids {dups:?} used twice, but finishing did not panic")),
        Err(m) if dups.is_empty() => Err(format!("no id used twice, but finishing panicked: {m}")),
        Err(m) => {
            s.hit("duplicate");
            let text = m.split(" at /").next().unwrap_or(&m).split(" at src").next().unwrap();
            let nums: Vec<i32> = text.split(|c: char| !c.is_ascii_digit()).filter_map(|t| t.parse().ok()).collect();
            if nums.iter().any(|n| dups.contains(n)) {
                Ok(())
            } else {
                Err(format!("ids {dups:?} used twice, panic says {m:?}"))
            }
        }
    }
}
