//! C13 and C14: content streams and reported limits.

use pdf_writer::*;
use vharness::content::*;
use vharness::docs::*;
use vharness::engine::{Prop, Src, Twin};
use vharness::gen::HUGE;
use vharness::pdf::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            run: c13,
            quick: 1_800_000,
            thorough: 40_000_000,
            rule: "random sequences (up to 400) of all content operations with random operands in both layouts; non-trivial: at least two operations",
            assumptions: &["operator names passed to the generic operation are valid PDF keywords"],
            must_hit: &["pretty", "compact", "long sequence", "nested states", "restore below zero"],
        },
        Prop {
            id: "C14",
            run: c14,
            quick: 1_440_000,
            thorough: 40_000_000,
            rule: "random chunks, documents, merges, renumberings, content streams and calculator functions; limits recomputed from the parsed output after every step; non-trivial: at least one object or operation",
            assumptions: &["character maps are not PDF objects and carry no limits of interest"],
            must_hit: &["chunk", "content", "merge", "renumber", "calculator", "merge limits", "document", "typed object"],
        },
    ]
}

pub fn check_ops(want: &[Op], got: &[Op]) -> Result<(), String> {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        if w.0 != g.0 {
            return Err(format!("operation {i}: issued {} {}, read {} {}", w.0, show(&M::Arr(w.1.clone())), g.0, show(&M::Arr(g.1.clone()))));
        }
        check(&M::Arr(w.1.clone()), &M::Arr(g.1.clone())).map_err(|e| format!("operation {i} ({}): {e}", w.0))?;
    }
    if want.len() != got.len() {
        return Err(format!("{} operations issued, {} read", want.len(), got.len()));
    }
    Ok(())
}

fn c13(s: &mut Src) -> Result<(), String> {
    let pretty = s.pretty();
    s.hit(if pretty { "pretty" } else { "compact" });
    let n = match s.below(40) {
        0 => 0,
        1..=25 => s.usize(1, 6),
        26..=38 => s.usize(1, 30),
        _ => {
            s.hit("long sequence");
            s.usize(30, 400)
        }
    };
    s.nontrivial = n >= 2;
    let mut c = match s.below(4) {
        0 => Content::with_settings_and_capacity(Settings { pretty }, s.usize(0, 4000)),
        _ => Content::with_settings(Settings { pretty }),
    };
    let mut want: Vec<Op> = Vec::new();
    let mut depth = 0usize;
    let mut prev: Vec<u8> = Vec::new();
    let mut twin = Twin::default();
    for _ in 0..n {
        if s.one_in(20) {
            let k = s.usize(0, 5000);
            c.reserve(k);
        }
        if s.one_in(60) {
            // A run of saves or restores.
            let k = if s.one_in(200) { *s.pick(&HUGE) } else { *s.pick(&[2usize, 5, 12, 27, 28, 29, 30, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300]) };
            let save = s.below(3) < 2;
            s.hit("run of saves or restores");
            for _ in 0..k {
                if save {
                    c.save_state();
                    depth += 1;
                } else {
                    c.restore_state();
                    depth = depth.saturating_sub(1);
                }
                want.push((if save { "q" } else { "Q" }.to_string(), vec![]));
                if c.state_nesting_depth() != depth {
                    return Err(format!("after {} saves and restores in effect the nesting depth is {}", depth, c.state_nesting_depth()));
                }
            }
        }
        // `q` and `Q` written through the generic operation are not counted
        // as saves and restores by anything documented, so they do not occur.
        s.step_begins(&mut twin);
        let op = content_op(s, &mut c);
        s.step_ends(&mut twin);
        match op.0.as_str() {
            "q" => depth += 1,
            "Q" => {
                if depth == 0 {
                    s.hit("restore below zero");
                }
                depth = depth.saturating_sub(1)
            }
            _ => {}
        }
        if depth > 1 {
            s.hit("nested states");
        }
        want.push(op);
        if c.state_nesting_depth() != depth {
            return Err(format!("after {} saves and restores in effect the nesting depth is {}", depth, c.state_nesting_depth()));
        }
        if c.len() != c.as_bytes().len() {
            return Err(format!("len is {}, bytes are {}", c.len(), c.as_bytes().len()));
        }
        if n <= 10 {
            if !c.as_bytes().starts_with(&prev) {
                return Err("an operation changed what was written before it".into());
            }
            prev = c.as_bytes().to_vec();
        }
    }
    s.note(|| format!("pretty={pretty} {}", want.iter().map(|(o, a)| format!("{} {o}", a.iter().map(show).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join("; ")));
    let buf = c.finish();
    let got = parse_content(&buf).map_err(|e| format!("(pretty={pretty}) {e}"))?;
    check_ops(&want, &got).map_err(|e| format!("(pretty={pretty}) {e}"))
}

/// Values whose lengths are where narrow counters end, alone in a chunk.
fn c14_edge(kind: u64, n: usize) -> Result<(), String> {
    let mut c = Chunk::with_settings(Settings { pretty: false });
    let mut want = [0usize; 4]; // name, string, array, dictionary
    {
        let o = c.indirect(Ref::new(1));
        match kind {
            0 => {
                o.primitive(Name(&vec![b'n'; n]));
                want[0] = n;
            }
            1 => {
                o.primitive(Str(&vec![b's'; n]));
                want[1] = n;
            }
            2 => {
                o.primitive(Str(&vec![0xe9; n]));
                want[1] = n;
            }
            3 => {
                o.primitive(TextStr(&"t".repeat(n)));
                want[1] = n;
            }
            4 => {
                o.primitive(TextStr(&"\u{4e00}".repeat(n)));
                want[1] = if n == 0 { 0 } else { 2 + 2 * n };
            }
            5 => {
                o.array().items((0..n).map(|_| false));
                want[2] = n;
            }
            6 => {
                o.array().typed::<Null>().items((0..n).map(|_| Null));
                want[2] = n;
            }
            7 => {
                o.dict().pairs((0..n).map(|_| (Name(b"K"), Null)));
                want = [usize::from(n > 0), 0, 0, n];
            }
            _ => {
                let mut d = o.dict();
                for _ in 0..n {
                    d.insert(Name(b"")).primitive(true);
                }
                want[3] = n;
            }
        }
    }
    let mut d = Chunk::new();
    d.indirect(Ref::new(2)).dict();
    d.extend(&c);
    for (what, l) in [("chunk", c.limits()), ("chunk it was merged into", d.limits())] {
        let got = [l.name_len(), l.str_len(), l.array_len(), l.dict_entries()];
        if got != want || l.int() > 2 || l.real() != 0.0 {
            return Err(format!("limits of the {what}: {l:?}, expected {want:?} (kind {kind}, length {n})"));
        }
    }
    Ok(())
}

fn c14(s: &mut Src) -> Result<(), String> {
    const EDGES: [usize; 16] =
        [0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536];
    if s.huge(s.index) && (1..=9).contains(&s.index) {
        s.hit("more than 2^24 long");
        return c14_edge(s.index - 1, (1 << 24) + 1);
    }
    if let Some(i) = s.index.checked_sub(10).filter(|i| *i < 9 * 17) {
        s.hit("length at an edge");
        let n = EDGES.get(i as usize / 9).copied().unwrap_or(65537);
        s.note(|| format!("kind {} of length {n}", i % 9));
        return c14_edge(i % 9, n);
    }
    match s.below(10) {
        0..=2 => {
            s.hit("content");
            let pretty = s.pretty();
            let mut c = Content::with_settings(Settings { pretty });
            let n = s.count(0, 12);
            s.nontrivial = n > 0;
            for _ in 0..n {
                content_op(s, &mut c);
            }
            let buf = c.finish();
            let mut want = Lim::default();
            for (_, args) in parse_content(&buf)? {
                args.iter().for_each(|a| want.add(a));
            }
            s.note(|| format!("content {} -> {want:?}", String::from_utf8_lossy(&buf)));
            want.expect(buf.limits()).map_err(|e| format!("content stream: {e}"))
        }
        3 => {
            s.hit("calculator");
            let ops = crate::misc::gen_calc(s, 3);
            s.nontrivial = !ops.is_empty();
            let buf = crate::misc::encode_calc(&ops);
            let mut want = Lim::default();
            crate::misc::calc_limits(&ops, &mut want);
            s.note(|| format!("calculator {} -> {want:?}", String::from_utf8_lossy(&buf)));
            want.expect(buf.limits()).map_err(|e| format!("calculator: {e}"))
        }
        _ => c14_chunks(s),
    }
}

fn limits_of(bytes: &[u8]) -> Result<Lim, String> {
    let mut l = Lim::default();
    for o in parse_chunk(bytes)? {
        l.object(&o);
    }
    Ok(l)
}

fn c14_chunks(s: &mut Src) -> Result<(), String> {
    // A pool of chunks with their expected limits; the body of each
    // expectation is recomputed from the bytes, and what a merge brought in
    // beyond its bytes is carried along.
    let document = s.coin();
    let mut pdf = Pdf::with_settings(settings(s));
    let head = pdf.len();
    let mut chunks: Vec<(Chunk, Lim)> = vec![(Chunk::with_settings(settings(s)), Lim::default())];
    let mut pdf_lim = Lim::default();
    let steps = s.usize(1, 10);
    let mut trace = Vec::new();
    let mut next = 1;
    if pdf.limits() != &Limits::new() {
        return Err("a new document reports limits".into());
    }
    for _ in 0..steps {
        let k = s.usize(0, chunks.len() - 1);
        match s.below(9) {
            0..=3 => {
                s.hit("chunk");
                s.nontrivial = true;
                let id = if s.one_in(4) { s.id() } else { next };
                next += 1;
                let it = Item { id, body: Body::gen(s, 200) };
                trace.push(format!("write {it:?} into {k}"));
                if document && s.coin() {
                    it.write(&mut pdf);
                } else {
                    it.write(&mut chunks[k].0);
                }
            }
            4 => {
                let st = settings(s);
                trace.push(format!("new chunk {}", chunks.len()));
                chunks.push((Chunk::with_settings(st), Lim::default()));
            }
            5 => {
                s.hit("merge");
                let j = s.usize(0, chunks.len() - 1);
                trace.push(format!("merge {j} into {k}"));
                let (src, l) = (chunks[j].0.clone(), chunks[j].1.clone());
                if document && s.coin() {
                    pdf.extend(&src);
                    pdf_lim.max(&l);
                } else {
                    chunks[k].0.extend(&src);
                    chunks[k].1.max(&l);
                }
            }
            6 => {
                s.hit("renumber");
                let j = s.usize(0, chunks.len() - 1);
                let add = s.range(0, 1000) as i32;
                let src = chunks[j].0.clone();
                let l = {
                    let mut l = chunks[j].1.clone();
                    l.max(&limits_of(src.as_bytes())?);
                    l
                };
                trace.push(format!("renumber {j} (+{add})"));
                let f = |r: Ref| Ref::new((r.get() / 2).saturating_add(add).max(1));
                match s.below(3) {
                    0 => {
                        let c = src.renumber(f);
                        chunks.push((c, l));
                    }
                    1 if document => {
                        src.renumber_into(&mut pdf, f);
                        pdf_lim.max(&l);
                    }
                    _ => {
                        src.renumber_into(&mut chunks[k].0, f);
                        chunks[k].1.max(&l);
                    }
                }
            }
            7 => {
                s.hit("merge limits");
                let mut c = Content::new();
                let n = s.usize(0, 4);
                for _ in 0..n {
                    content_op(s, &mut c);
                }
                let b = c.finish();
                trace.push(format!("merge limits {:?} into {k}", b.limits()));
                // The content check ties a stream's limits to its operations.
                let l = Lim::of(b.limits());
                if s.coin() {
                    chunks[k].0.merge_limits(b.limits());
                    chunks[k].1.max(&l);
                } else {
                    // Through a limits object of one's own.
                    let mut own = Limits::new();
                    own.merge(b.limits());
                    own.merge(chunks[k].0.limits());
                    chunks[k].0.merge_limits(&own);
                    chunks[k].1.max(&l);
                }
            }
            _ => {
                if !document {
                    continue;
                }
                s.hit("document");
                let id = Ref::new(next);
                next += 1;
                let t = s.text(60);
                trace.push(format!("document info {t:?}"));
                if s.coin() {
                    pdf.document_info(id).author(TextStr(&t));
                } else {
                    pdf.catalog(id).lang(TextStr(&t));
                }
            }
        }
        for (i, (c, extra)) in chunks.iter().enumerate() {
            let mut want = limits_of(c.as_bytes())?;
            want.max(extra);
            want.expect(c.limits()).map_err(|e| format!("chunk {i} after {}: {e}", trace.join("; ")))?;
        }
        let mut want = limits_of(&pdf.as_bytes()[head..])?;
        want.max(&pdf_lim);
        want.expect(pdf.limits()).map_err(|e| format!("document after {}: {e}", trace.join("; ")))?;
    }
    s.note(|| trace.join("; "));
    Ok(())
}
