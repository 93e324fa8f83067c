//! C09 - C12: object trees, streams, merging, renumbering.

use crate::primitive::one;
use pdf_writer::*;
use std::collections::BTreeMap;
use vharness::docs::*;
use vharness::engine::{Prop, Src};
use vharness::gen::*;
use vharness::pdf::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            run: c09,
            quick: 300_000,
            thorough: 9_000_000,
            rule: "random object trees (incl. nesting up to 1025 levels and up to 70000 items) written through several builder paths at several positions in both layouts; non-trivial: at least three nodes",
            assumptions: &[],
            must_hit: &["deep", "wide", "extreme", "typed array", "typed dict", "pretty", "compact"],
        },
        Prop {
            id: "C10",
            run: c10,
            quick: 600_000,
            thorough: 7_200_000,
            rule: "random streams (adversarial data, sizes up to megabytes) through every stream-based writer between other objects; non-trivial: non-empty data",
            assumptions: &["stream data up to 4 MB"],
            must_hit: &["empty data", "large data", "typed stream"],
        },
        Prop {
            id: "C11",
            run: c11,
            quick: 360_000,
            thorough: 9_000_000,
            rule: "random trees of chunk merges (nested, repeated, empty chunks, mixed layouts); non-trivial: at least one merge of a non-empty chunk",
            assumptions: &[],
            must_hit: &["nested merge", "merge twice", "merge into document", "mixed layouts", "typed object"],
        },
        Prop {
            id: "C12",
            run: c12,
            quick: 360_000,
            thorough: 6_000_000,
            rule: "random chunks with references everywhere, renumbered by random mappings (shifts, permutations, hashes, lazily allocated, constant), composed and merged on; non-trivial: at least one reference and two objects",
            assumptions: &["mappings answer consistently for one id"],
            must_hit: &["lazy", "permutation", "constant", "hash", "composition", "into non-empty", "dangling", "finished", "typed object"],
        },
    ]
}

fn c09(s: &mut Src) -> Result<(), String> {
    let pretty = s.pretty();
    s.hit(if pretty { "pretty" } else { "compact" });
    let mut t = {
        let d = s.below(5) as u32;
        let t = Tree::gen(s, d);
        // A leaf alone is only an interesting case now and then.
        if d > 0 && !matches!(t, Tree::Arr(_) | Tree::Dict(_)) && !s.one_in(5) {
            let n = s.usize(1, 6);
            let mut v: Vec<Tree> = (0..n).map(|_| Tree::gen(s, d - 1)).collect();
            v.insert(s.usize(0, n), t);
            if s.coin() {
                Tree::Dict(v.into_iter().map(|t| (s.name_bytes(), t)).collect())
            } else {
                Tree::Arr(v)
            }
        } else {
            t
        }
    };
    if s.one_in(40) {
        // A deep chain of containers around it.
        t = t.buried(s);
        s.hit("deep");
    } else if s.one_in(40) {
        let n = *s.pick(&[100usize, 127, 128, 255, 256, 257, 1000, 1024, 5000]);
        let n = n.min(1 + 1_000_000 / t.weight());
        let items = vec![t; n];
        t = if s.coin() {
            Tree::Arr(items)
        } else {
            Tree::Dict(items.into_iter().enumerate().map(|(i, t)| (format!("K{i}").into_bytes(), t)).collect())
        };
        if t.size() > 100_000 {
            t = Tree::Null;
        }
        s.hit("wide");
    } else if let Some(x) = Tree::gen_extreme(s, 8000) {
        s.hit("extreme");
        t = x;
    }
    s.nontrivial = t.size() >= 3;
    s.note(|| format!("pretty={pretty} {t:?}"));
    let m = t.model();
    let ctx = |how: &str, e: String| format!("{how} (pretty={pretty}): {e}");
    // As an indirect object, twice, with the convenience calls the second time.
    let o = one(pretty, |o| t.write(o)).map_err(|e| ctx("object", e))?;
    check(&m, &o.value).map_err(|e| ctx("object", e))?;
    let ordered = o.value.clone();
    check_order(&t, &o.value)?;
    let o = one(pretty, |o| t.write_alt(s, o)).map_err(|e| ctx("object by convenience calls", e))?;
    check(&m, &o.value).map_err(|e| ctx("object by convenience calls", e))?;
    if !same(&ordered, &o.value) {
        return Err(ctx("convenience calls", "write a different object".into()));
    }
    // Inside an array, a dictionary, an operand; with lengths.
    let o = one(pretty, |o| {
        let mut a = o.array();
        t.write(a.push());
        let mut d = a.push().dict();
        t.write(d.insert(Name(b"A")));
        t.write(d.insert(Name(b"B")));
        d.finish();
        t.write(a.push());
    })
    .map_err(|e| ctx("nested object", e))?;
    let mm = M::Arr(vec![m.clone(), D::new().with("A", m.clone()).with("B", m.clone()).m(), m.clone()]);
    check(&mm, &o.value).map_err(|e| ctx("nested object", e))?;
    let mut c = Content::with_settings(Settings { pretty });
    let mut op = c.op("zz");
    t.write(op.obj());
    t.write(op.obj());
    op.finish();
    c.op("q");
    let ops = parse_content(&c.finish()).map_err(|e| ctx("operand", e))?;
    if ops.len() != 2 || ops[0].0 != "zz" || ops[0].1.len() != 2 || ops[1].0 != "q" {
        return Err(ctx("operand", format!("operations read as {:?}", ops.iter().map(|o| (&o.0, o.1.len())).collect::<Vec<_>>())));
    }
    for a in &ops[0].1 {
        check(&m, a).map_err(|e| ctx("operand", e))?;
    }
    lengths(s, pretty)?;
    typed(s, pretty)
}

/// Dictionary entries come in the order of writing.
fn check_order(t: &Tree, m: &M) -> Result<(), String> {
    match (t, m) {
        (Tree::Dict(a), M::Dict(b)) => {
            for ((k, x), (l, y)) in a.iter().zip(b) {
                if k != l {
                    return Err(format!("entry {:?} is out of order", String::from_utf8_lossy(k)));
                }
                check_order(x, y)?;
            }
        }
        (Tree::Arr(a), M::Arr(b)) => {
            for (x, y) in a.iter().zip(b) {
                check_order(x, y)?;
            }
        }
        _ => {}
    }
    Ok(())
}

fn lengths(s: &mut Src, pretty: bool) -> Result<(), String> {
    let n = s.count(0, 6);
    let mut bad = None;
    let o = one(pretty, |o| {
        let mut a = o.array();
        if !a.is_empty() || a.len() != 0 {
            bad = Some("fresh array is not empty".to_string());
        }
        let mut want = 0;
        for _ in 0..n {
            match s.below(4) {
                0 => {
                    a.item(1);
                    want += 1;
                }
                1 => {
                    let k = s.count(0, 4);
                    a.items((0..k as i32).map(|x| x * 2));
                    want += k as i32;
                }
                2 => {
                    let mut d = a.push().dict();
                    if !d.is_empty() || d.len() != 0 {
                        bad = Some("fresh dictionary is not empty".into());
                    }
                    let k = s.count(0, 4);
                    for i in 0..k {
                        match s.below(3) {
                            0 => {
                                d.pair(Name(b"X"), 1);
                            }
                            1 => {
                                d.pairs([(Name(b"Y"), 1)]);
                            }
                            _ => d.insert(Name(b"Z")).array().finish(),
                        }
                        if d.len() != i as i32 + 1 || d.is_empty() {
                            bad = Some(format!("dictionary with {} entries reports {}", i + 1, d.len()));
                        }
                    }
                    want += 1;
                }
                _ => {
                    a.push().array().item(1).item(2);
                    want += 1;
                }
            }
            if a.len() != want || a.is_empty() != (want == 0) {
                bad = Some(format!("array with {want} items reports {}", a.len()));
            }
        }
    })?;
    if let Some(b) = bad {
        return Err(b);
    }
    drop(o);
    Ok(())
}

/// A list in parts, possibly empty ones.
fn parts<'a, T>(s: &mut Src, mut v: &'a [T]) -> Vec<&'a [T]> {
    let mut out = Vec::new();
    while s.below(3) > 0 && out.len() < 6 {
        let (a, b) = v.split_at(s.usize(0, v.len()));
        out.push(a);
        v = b;
    }
    out.push(v);
    out
}

fn typed(s: &mut Src, pretty: bool) -> Result<(), String> {
    s.hit("typed array");
    let ints = s.ints(30);
    let refs = s.refs(30);
    let keys: Vec<Vec<u8>> = (0..s.usize(0, 5)).map(|_| s.name_bytes()).collect();
    let vals: Vec<i32> = keys.iter().map(|_| s.int()).collect();
    let how = s.below(3);
    let mut bad = None;
    let mut expect = |what: &str, got: (i32, bool), want: usize| {
        if got != (want as i32, want == 0) {
            bad = Some(format!("{what} with {want} entries reports {got:?}"));
        }
    };
    s.hit("typed dict");
    let o = one(pretty, |o| {
        let mut a = o.array();
        {
            let mut t: TypedArray<'_, i32> =
                if how == 0 { TypedArray::wrap(a.push().array()) } else { a.push().array().typed() };
            for part in parts(s, &ints) {
                if how == 2 || part.len() == 1 && s.coin() {
                    for i in part {
                        t.item(*i);
                    }
                } else {
                    t.items(lz(part.iter().copied()));
                }
            }
            expect("typed array", (t.len(), t.is_empty()), ints.len());
        }
        {
            // `start` on the typed container itself.
            let mut t = a.push().start::<TypedArray<'_, Ref>>();
            for part in parts(s, &refs) {
                t.items(lz(part.iter().copied()));
            }
            expect("typed array", (t.len(), t.is_empty()), refs.len());
        }
        {
            let mut t = a.push().start::<TypedArray<'_, Dict<'_>>>();
            for (k, v) in keys.iter().zip(&vals) {
                t.push().pair(Name(k), *v);
            }
            expect("typed array", (t.len(), t.is_empty()), keys.len());
        }
        {
            let mut t: TypedDict<'_, i32> =
                if how == 0 { TypedDict::wrap(a.push().dict()) } else { a.push().dict().typed() };
            let all: Vec<(Name, i32)> = keys.iter().zip(&vals).map(|(k, v)| (Name(k), *v)).collect();
            for part in parts(s, &all) {
                match s.below(2) {
                    0 => drop(t.pairs(lz(part.iter().copied()))),
                    _ => {
                        for (k, v) in part {
                            t.pair(*k, *v);
                        }
                    }
                }
            }
            expect("typed dictionary", (t.len(), t.is_empty()), keys.len());
        }
        {
            let mut t = a.push().start::<TypedDict<'_, Array<'_>>>();
            for (k, v) in keys.iter().zip(&vals) {
                t.insert(Name(k)).item(*v).item(Name(b"n"));
            }
            expect("typed dictionary", (t.len(), t.is_empty()), keys.len());
        }
        {
            let mut t = a.push().start::<TypedArray<'_, TypedDict<'_, i32>>>();
            t.push().pair(Name(b"A"), 1);
            t.push();
            expect("typed array", (t.len(), t.is_empty()), 2);
        }
        a.item(Null).item(true);
    })?;
    if let Some(b) = bad {
        return Err(b);
    }
    let pairs = || keys.iter().cloned().zip(vals.iter().map(|v| M::Int(*v as i64))).collect::<Vec<_>>();
    let m = M::Arr(vec![
        ints_m(&ints),
        refs_m(&refs),
        M::Arr(pairs().into_iter().map(|p| M::Dict(vec![p])).collect()),
        M::Dict(pairs()),
        M::Dict(pairs().into_iter().map(|(k, v)| (k, M::Arr(vec![v, name("n")]))).collect()),
        M::Arr(vec![D::new().with("A", M::Int(1)).m(), D::new().m()]),
        M::Null,
        M::Bool(true),
    ]);
    check(&m, &o.value).map_err(|e| format!("typed containers (pretty={pretty}): {e}"))
}

fn c10(s: &mut Src) -> Result<(), String> {
    let pretty = s.pretty();
    let n = s.count(1, 5);
    let big = match s.below(400) {
        0 => 4 << 20,
        1..=12 => 200_000,
        _ => 3000,
    };
    let mut c = Chunk::with_settings(Settings { pretty });
    let mut want: Vec<(i32, Vec<u8>, Vec<(Vec<u8>, M)>, bool)> = Vec::new();
    for i in 0..n {
        let id = Ref::new(i as i32 * 2 + 1);
        let data = stream_data(s, big);
        s.hit(if data.is_empty() { "empty data" } else { "data" });
        if data.len() > 60_000 {
            s.hit("large data");
        }
        s.nontrivial |= !data.is_empty();
        let k = s.count(0, 3);
        let extra: Vec<(Vec<u8>, Tree)> = (0..k)
            .map(|_| {
                let mut key = b"X".to_vec();
                key.extend(s.name_bytes());
                (key, Tree::gen(s, 2))
            })
            .collect();
        let kind = s.below(13);
        if kind > 2 {
            s.hit("typed stream");
        }
        macro_rules! fill {
            ($w:expr) => {{
                let mut w = $w;
                for (k, t) in &extra {
                    t.write(w.insert(Name(k)));
                }
                if s.coin() {
                    w.finish();
                }
            }};
        }
        match kind {
            0..=2 => fill!(c.stream(id, &data)),
            3 => fill!(c.embedded_file(id, &data)),
            4 => fill!(c.metadata(id, &data)),
            5 => fill!(c.image_xobject(id, &data)),
            6 => fill!(c.form_xobject(id, &data)),
            7 => fill!(c.cmap(id, &data)),
            8 => fill!(c.stream_shading(id, &data)),
            9 => fill!(c.tiling_pattern(id, &data)),
            10 => fill!(c.icc_profile(id, &data)),
            11 => fill!(c.sampled_function(id, &data)),
            _ => fill!(c.post_script_function(id, &data)),
        }
        s.note(|| format!("stream kind {kind}, {} bytes {:?}, extra {extra:?}", data.len(), String::from_utf8_lossy(&data[..data.len().min(60)])));
        want.push((id.get(), data, extra.iter().map(|(k, t)| (k.clone(), t.model())).collect(), kind <= 2));
        if s.coin() {
            // Neighbours that must stay intact.
            let t = Tree::gen(s, 1);
            t.write(c.indirect(Ref::new(id.get() + 1)));
            want.push((id.get() + 1, vec![], vec![(b"".to_vec(), t.model())], false));
        }
    }
    let objs = parse_chunk(c.as_bytes())?;
    if objs.len() != want.len() {
        return Err(format!("{} objects written, {} read", want.len(), objs.len()));
    }
    for (o, (id, data, extra, plain)) in objs.iter().zip(&want) {
        if o.id != *id as i64 || o.gen != 0 {
            return Err(format!("object {id} reads as {} {}", o.id, o.gen));
        }
        if id % 2 == 0 {
            check(&extra[0].1, &o.value).map_err(|e| format!("neighbour {id}: {e}"))?;
            continue;
        }
        let Some(got) = &o.stream else { return Err(format!("object {id} is not a stream")) };
        if got != data {
            return Err(format!("object {id}: stream data differs: wrote {} bytes, read {}", data.len(), got.len()));
        }
        let M::Dict(d) = &o.value else { return Err("no dictionary".into()) };
        let len: Vec<_> = d.iter().filter(|e| e.0 == b"Length").collect();
        if len.len() != 1 || int_of(Some(&len[0].1)) != Some(data.len() as i64) {
            return Err(format!("object {id}: {} bytes of data, Length {len:?}", data.len()));
        }
        // The caller's entries, plus what the typed writer fixes.
        let own: Vec<_> = d.iter().filter(|e| *plain || e.0.starts_with(b"X")).filter(|e| e.0 != b"Length").cloned().collect();
        check(&M::Dict(extra.clone()), &M::Dict(own)).map_err(|e| format!("object {id}: {e}"))?;
    }
    // And in a finished file.
    let mut pdf = Pdf::with_settings(Settings { pretty });
    pdf.extend(&c);
    let d = read_table_doc(&pdf.finish())?;
    if d.objects.len() != want.len() {
        return Err("objects missing from the finished file".into());
    }
    let mut by_pos = d.objects;
    by_pos.sort_by_key(|o| o.start);
    for (a, b) in by_pos.iter().zip(&objs) {
        if a.stream != b.stream || !same(&a.value, &b.value) {
            return Err(format!("object {} changed in the finished file", a.id));
        }
    }
    Ok(())
}

fn c11(s: &mut Src) -> Result<(), String> {
    if s.huge(1) {
        s.note(|| "a document of more than 2^32 bytes".into());
        return crate::file::giant_grown(false);
    }
    // A pool of chunks; merge random ones into random ones.
    let n = s.usize(2, 5);
    let many = if s.one_in(12_000) { *s.pick(&[300, 5000, 40_000]) } else { 4 };
    let mut next_id = 1;
    let mut chunks: Vec<(Chunk, Vec<Item>)> = Vec::new();
    let mut layouts = Vec::new();
    for _ in 0..n {
        let set = settings(s);
        layouts.push(set.pretty);
        let mut c = match s.below(3) {
            0 => Chunk::with_settings(set),
            1 => Chunk::with_settings_and_capacity(set, s.usize(0, 5000)),
            _ => Chunk::with_settings_and_capacity(set, 0),
        };
        let k = s.count(0, many);
        let mut items = Vec::new();
        for _ in 0..k {
            let it = Item { id: next_id, body: Body::gen(s, if many > 4 { 60 } else { 600 }) };
            next_id += 1 + s.below(3) as i32;
            it.write(&mut c);
            items.push(it);
        }
        chunks.push((c, items));
    }
    if layouts.iter().any(|&l| l != layouts[0]) {
        s.hit("mixed layouts");
    }
    let largest = chunks.iter().map(|c| c.1.len()).max().unwrap_or(0);
    let merges = s.usize(1, 5);
    let mut merged_into = vec![0; n];
    for _ in 0..merges {
        let i = s.usize(0, n - 1);
        let j = s.usize(0, n - 1);
        if i == j {
            continue;
        }
        if chunks[j].1.len() + chunks[i].1.len() > 60.max(2 * many).max(3 * largest) {
            continue;
        }
        if merged_into[j] > 0 {
            s.hit("nested merge");
        }
        if merged_into[i] > 0 {
            s.hit("merge twice");
        }
        merged_into[i] += 1;
        let (src, src_items) = (chunks[j].0.clone(), chunks[j].1.clone());
        s.nontrivial |= !src_items.is_empty();
        let before = chunks[i].0.as_bytes().to_vec();
        let src_bytes = src.as_bytes().to_vec();
        chunks[i].0.extend(&src);
        if src.as_bytes() != src_bytes || src.len() != src_bytes.len() {
            return Err("merging changed its source".into());
        }
        let after = chunks[i].0.as_bytes();
        let want: Vec<u8> = before.iter().chain(&src_bytes).copied().collect();
        if after != want {
            return Err(format!("merge of {} bytes into {} bytes is not the concatenation", src_bytes.len(), before.len()));
        }
        chunks[i].1.extend(src_items);
        // Writing goes on after a merge, in the layout of the chunk.
        if s.coin() {
            let it = Item { id: next_id, body: Body::gen(s, 100) };
            next_id += 1;
            let at = chunks[i].0.len();
            it.write(&mut chunks[i].0);
            let mut alone = Chunk::with_settings(Settings { pretty: layouts[i] });
            it.write(&mut alone);
            if chunks[i].0.as_bytes()[at..] != *alone.as_bytes() {
                return Err(format!("object {} is not written in the layout of its chunk after a merge", it.id));
            }
            chunks[i].1.push(it);
        }
    }
    s.note(|| format!("layouts {layouts:?}, ids per chunk {:?}", chunks.iter().map(|c| c.1.iter().map(|i| i.id).collect::<Vec<_>>()).collect::<Vec<_>>()));
    for (c, items) in &chunks {
        let refs: Vec<i32> = c.refs().map(|r| r.get()).collect();
        let ids: Vec<i32> = items.iter().map(|i| i.id).collect();
        if refs != ids || c.refs().len() != ids.len() {
            return Err(format!("reported ids {refs:?}, written {ids:?}"));
        }
        if c.len() != c.as_bytes().len() {
            return Err("length disagrees with the bytes".into());
        }
        let objs = parse_chunk(c.as_bytes())?;
        if objs.len() != items.len() {
            return Err(format!("{} objects written, {} read", items.len(), objs.len()));
        }
        for (o, it) in objs.iter().zip(items) {
            it.check(o)?;
        }
    }
    // Into a document, every object must be located.
    s.hit("merge into document");
    let mut pdf = Pdf::with_settings(settings(s));
    let mut seen = std::collections::BTreeSet::new();
    let mut want: Vec<Item> = Vec::new();
    if s.coin() {
        let it = Item { id: next_id, body: Body::gen(s, 100) };
        it.write(&mut pdf);
        want.push(it);
    }
    for (c, items) in &chunks {
        let mut ids: Vec<i32> = items.iter().map(|i| i.id).collect();
        ids.sort();
        let unique = ids.windows(2).all(|w| w[0] != w[1]) && ids.iter().all(|i| !seen.contains(i));
        if unique {
            pdf.extend(c);
            seen.extend(ids);
            want.extend(items.iter().cloned());
        }
    }
    let d = read_table_doc(&pdf.finish())?;
    if d.objects.len() != want.len() {
        return Err(format!("{} objects merged into the document, {} found", want.len(), d.objects.len()));
    }
    let by_id: std::collections::HashMap<i64, &Indirect> = d.objects.iter().map(|o| (o.id, o)).collect();
    for it in &want {
        let Some(o) = by_id.get(&(it.id as i64)) else {
            return Err(format!("object {} is not located in the finished file", it.id));
        };
        it.check(o)?;
    }
    Ok(())
}

/// A consistent mapping with state.
struct Mapping {
    kind: u64,
    a: i32,
    next: i32,
    memo: BTreeMap<i32, i32>,
    table: BTreeMap<i32, i32>,
}

impl Mapping {
    fn gen(s: &mut Src, ids: &[i32]) -> Mapping {
        let kind = s.below(6);
        let a = match s.below(3) {
            0 => s.range(0, 20) as i32,
            1 => *s.pick(&[99, 100, 999, 65535, 1_000_000, 2_000_000_000]),
            _ => s.range(0, 1 << 30) as i32,
        };
        let mut table = BTreeMap::new();
        match kind {
            2 => {
                // A permutation of the ids in use.
                s.hit("permutation");
                let mut p = ids.to_vec();
                for i in (1..p.len()).rev() {
                    let j = s.usize(0, i);
                    p.swap(i, j);
                }
                table = ids.iter().copied().zip(p).collect();
            }
            0 => s.hit("lazy"),
            3 => s.hit("constant"),
            4 => s.hit("hash"),
            _ => {}
        }
        Mapping { kind, a, next: 1 + a.min(2_000_000_000), memo: BTreeMap::new(), table }
    }

    fn at(&mut self, id: i32) -> i32 {
        match self.kind {
            0 => {
                let next = &mut self.next;
                *self.memo.entry(id).or_insert_with(|| {
                    let v = *next;
                    *next += 1;
                    v
                })
            }
            1 => ((id as i64 - 1 + self.a as i64) % (i32::MAX as i64)) as i32 + 1,
            2 => self.table.get(&id).copied().unwrap_or(id),
            3 => self.a.max(1),
            4 => (((id as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 33) as i32 & (i32::MAX - 1)) + 1,
            _ => id,
        }
    }
}

/// Trees with many references and reference look-alikes.
fn ref_tree(s: &mut Src, depth: u32, ids: &[i32]) -> Tree {
    let id = |s: &mut Src| {
        if !ids.is_empty() && s.below(3) > 0 {
            Ref::new(*s.pick(ids))
        } else {
            s.rf()
        }
    };
    match if depth == 0 { s.below(8) } else { s.below(12) } {
        0..=2 => Tree::Ref(id(s)),
        3 => Tree::Int(s.range(0, 3) as i32),
        4 => Tree::Str(s.bytes(40)),
        5 => Tree::Name(s.name_bytes()),
        6 => Tree::Str({
            const P: [&[u8]; 14] = [
                b"1 0 R", b"(1 0 R", b"1 0 R)", b"\\(3 0 R", b"\\\\", b"\\", b">>\nstream\n1 0 R", b"% 1 0 R\n", b"endobj", b"2 0 obj",
                b"(", b")", b"\n1 0 R", b"R",
            ];
            let n = s.usize(1, 3);
            (0..n).flat_map(|_| s.pick(&P).to_vec()).collect()
        }),
        7 => Tree::gen(s, 1),
        8 | 9 => {
            let n = s.count(0, 6);
            Tree::Arr((0..n).map(|_| ref_tree(s, depth - 1, ids)).collect())
        }
        _ => {
            let n = s.count(0, 5);
            Tree::Dict((0..n).map(|_| (s.name_bytes(), ref_tree(s, depth - 1, ids))).collect())
        }
    }
}

fn c12(s: &mut Src) -> Result<(), String> {
    if s.huge(1) {
        s.note(|| "a document of more than 2^32 bytes".into());
        return crate::file::giant_grown(true);
    }
    let n = match s.below(10) {
        _ if s.one_in(4000) => s.usize(100, 20_000),
        0 => s.usize(0, 1),
        9 => s.usize(1, 30),
        _ => s.usize(2, 6),
    };
    let ids = gen_ids(s, n, true);
    let mut src = Chunk::with_settings(settings(s));
    let mut items: Vec<Item> = Vec::new();
    for &id in &ids {
        let body = match s.below(5) {
            0 => Body::Stream {
                dict: (0..s.count(0, 3))
                    .map(|_| {
                        let mut k = b"K".to_vec();
                        k.extend(s.name_bytes());
                        (k, ref_tree(s, 1, &ids))
                    })
                    .collect(),
                data: stream_data(s, if n > 30 { 60 } else { 2000 }),
            },
            1 => Body::gen(s, if n > 30 { 60 } else { 2000 }),
            _ => {
                let d = s.below(4) as u32;
                Body::Tree(ref_tree(s, d, &ids))
            }
        };
        let it = Item { id, body };
        if s.one_in(5) {
            let mut c = Chunk::with_settings(settings(s));
            it.write(&mut c);
            src.extend(&c);
        } else {
            it.write(&mut src);
        }
        items.push(it);
    }
    let mut used: Vec<i32> = Vec::new();
    items.iter().for_each(|i| i.body.refs(&mut used));
    let mut known: std::collections::HashSet<i32> = ids.iter().copied().collect();
    if used.iter().any(|r| !known.contains(r)) {
        s.hit("dangling");
    }
    s.nontrivial = !used.is_empty() && items.len() >= 2;
    known.extend(&used);
    let mut map = Mapping::gen(s, &ids);
    s.note(|| format!("mapping kind {} a {} over {items:?}", map.kind, map.a));
    let before = src.as_bytes().to_vec();
    let mut asked: Vec<i32> = Vec::new();

    // First renumbering, standalone or into a chunk with content.
    let mut prior: Vec<Item> = Vec::new();
    let out = if s.coin() {
        src.renumber(|r| {
            asked.push(r.get());
            Ref::new(map.at(r.get()))
        })
    } else {
        s.hit("into non-empty");
        let mut t = Chunk::with_settings(settings(s));
        let k = s.count(0, 2);
        for i in 0..k {
            let it = Item { id: 900_000 + i as i32, body: Body::gen(s, 100) };
            it.write(&mut t);
            prior.push(it);
        }
        let head = t.as_bytes().to_vec();
        src.renumber_into(&mut t, |r| {
            asked.push(r.get());
            Ref::new(map.at(r.get()))
        });
        if !t.as_bytes().starts_with(&head) {
            return Err("renumbering into a chunk rewrote its content".into());
        }
        t
    };
    if src.as_bytes() != before {
        return Err("renumbering changed its source".into());
    }
    if let Some(a) = asked.iter().find(|a| !known.contains(a)) {
        return Err(format!("the mapping was asked about {a}, which is neither defined nor referenced"));
    }
    let mut want: Vec<Item> = prior.clone();
    for it in &items {
        want.push(Item { id: map.at(it.id), body: it.body.map_refs(&mut |r| map.at(r)) });
    }
    verify(&out, &want).map_err(|e| format!("renumbered: {e}"))?;

    // Compose with a second renumbering.
    if s.coin() {
        s.hit("composition");
        let all: Vec<i32> = want.iter().map(|i| i.id).collect();
        let mut map2 = Mapping::gen(s, &all);
        let mut out2 = Chunk::with_settings(settings(s));
        out.renumber_into(&mut out2, |r| Ref::new(map2.at(r.get())));
        let want2: Vec<Item> = want
            .iter()
            .map(|i| Item { id: map2.at(i.id), body: i.body.map_refs(&mut |r| map2.at(r)) })
            .collect();
        verify(&out2, &want2).map_err(|e| format!("renumbered twice: {e}"))?;
        finish(s, &out2, &want2)?;
    }
    finish(s, &out, &want)
}

fn verify(c: &Chunk, want: &[Item]) -> Result<(), String> {
    let refs: Vec<i32> = c.refs().map(|r| r.get()).collect();
    let ids: Vec<i32> = want.iter().map(|i| i.id).collect();
    if refs != ids {
        return Err(format!("reported ids {refs:?}, expected {ids:?}"));
    }
    let objs = parse_chunk(c.as_bytes())?;
    if objs.len() != want.len() {
        return Err(format!("{} objects expected, {} read", want.len(), objs.len()));
    }
    for (o, w) in objs.iter().zip(want) {
        w.check(o)?;
    }
    Ok(())
}

fn finish(s: &mut Src, c: &Chunk, want: &[Item]) -> Result<(), String> {
    let mut ids: Vec<i32> = want.iter().map(|i| i.id).collect();
    ids.sort();
    if ids.windows(2).any(|w| w[0] == w[1]) || ids.last().copied().unwrap_or(0) > 100_000 {
        return Ok(());
    }
    s.hit("finished");
    let mut pdf = Pdf::with_settings(settings(s));
    pdf.extend(c);
    let d = read_table_doc(&pdf.finish())?;
    if d.objects.len() != want.len() {
        return Err("renumbered objects missing from the finished file".into());
    }
    let by_id: std::collections::HashMap<i64, &Indirect> = d.objects.iter().map(|o| (o.id, o)).collect();
    for it in want {
        let o = by_id.get(&(it.id as i64)).ok_or("renumbered object not located")?;
        it.check(o)?;
    }
    Ok(())
}
