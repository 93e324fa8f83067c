//! C17 - C23: every typed writer, filled by random builder calls at a random
//! place among other objects, read back by an independent parser.

use pdf_writer::*;
use vharness::docs::*;
use vharness::engine::{Prop, Src};
use vharness::gen::*;
use vharness::pdf::*;
use vharness::typed::{all, Case, Kind};

const RULE: &str = "one typed writer, reached in a random way (any object position, chunk method, document method), with random builder calls in a random order and random neighbours; non-trivial: the written object has at least two entries besides its type";

macro_rules! props {
    ($($id:literal $quick:literal $thorough:literal;)*) => {
        vec![$( Prop {
            id: $id,
            run: |s| run($id, s),
            quick: $quick,
            thorough: $thorough,
            rule: RULE,
            assumptions: ASSUMPTIONS,
            must_hit: must_hit($id),
        } ),*]
    };
}

const ASSUMPTIONS: &[&str] = &[
    "expected dictionaries follow ISO 32000-1/-2 and the documented meaning of each method",
    "a setter called twice adds two entries, as the statement says of each call",
];

pub fn props() -> Vec<Prop> {
    props! {
        "C17" 1_800_000 30_000_000;
        "C18" 1_800_000 30_000_000;
        "C19" 1_800_000 30_000_000;
        "C20" 1_800_000 30_000_000;
        "C21" 1_800_000 30_000_000;
        "C22" 1_800_000 30_000_000;
        "C23" 1_800_000 30_000_000;
    }
}

const PLACES: [&str; 5] = ["in an indirect object", "in an array", "in a dictionary", "in a stream dictionary", "deep inside"];

fn of(id: &str) -> Vec<&'static Case> {
    all().iter().filter(|c| c.prop == id).collect()
}

fn must_hit(id: &str) -> &'static [&'static str] {
    let mut v: Vec<&'static str> = vec!["pretty", "compact", "nothing around", "neighbours"];
    v.extend(PLACES);
    v.extend(of(id).iter().map(|c| c.name));
    Vec::leak(v)
}

/// The writer at the given place of a chunk, and the object expected there.
fn place(s: &mut Src, c: &mut Chunk, id: Ref, f: fn(&mut Src, Obj<'_>) -> M) -> (M, Option<Vec<u8>>, M) {
    let n = s.below(3) as usize;
    let m = s.below(3) as usize;
    let before: Vec<Tree> = (0..n).map(|_| Tree::gen(s, 1)).collect();
    let after: Vec<Tree> = (0..m).map(|_| Tree::gen(s, 1)).collect();
    let k = s.below(PLACES.len() as u64) as usize;
    s.hit(PLACES[k]);
    let arr = |o: Obj<'_>, s: &mut Src| {
        let mut a = o.array();
        for t in &before {
            t.write(a.push());
        }
        let own = f(s, a.push());
        for t in &after {
            t.write(a.push());
        }
        let mut v: Vec<M> = before.iter().map(|t| t.model()).collect();
        v.push(own.clone());
        v.extend(after.iter().map(|t| t.model()));
        (M::Arr(v), own)
    };
    let entries = |d: &mut Dict<'_>, s: &mut Src| {
        let mut e = D::new();
        for (i, t) in before.iter().enumerate() {
            let k = format!("A{i}");
            t.write(d.insert(Name(k.as_bytes())));
            e.put(&k, t.model());
        }
        let own = f(s, d.insert(Name(b"Key")));
        e.put("Key", own.clone());
        for (i, t) in after.iter().enumerate() {
            let k = format!("B{i}");
            t.write(d.insert(Name(k.as_bytes())));
            e.put(&k, t.model());
        }
        (e, own)
    };
    match k {
        0 => {
            let own = f(s, c.indirect(id));
            (own.clone(), None, own)
        }
        1 => {
            let (m, own) = arr(c.indirect(id), s);
            (m, None, own)
        }
        2 => {
            let (e, own) = entries(&mut c.indirect(id).dict(), s);
            (e.m(), None, own)
        }
        3 => {
            let data = stream_data(s, 500);
            let mut st = c.stream(id, &data);
            let (e, own) = entries(&mut st, s);
            st.finish();
            (e.with("Length", M::Int(data.len() as i64)).m(), Some(data), own)
        }
        _ if s.one_in(100) => {
            let levels = *s.pick(&[4, 12, 40, 126, 127, 128, 140, 260]);
            let (m, own) = nest(s, c.indirect(id), levels, &arr);
            (m, None, own)
        }
        _ => {
            let mut outer = c.indirect(id).dict();
            let (m, own) = {
                let mut a = outer.insert(Name(b"Deep")).array();
                a.item(1);
                let mut d = a.push().dict();
                d.pair(Name(b"Zero"), 0);
                let (m, own) = arr(d.insert(Name(b"In")), s);
                (M::Arr(vec![M::Int(1), D::new().with("Zero", M::Int(0)).with("In", m).m()]), own)
            };
            outer.pair(Name(b"Last"), Null);
            outer.finish();
            (D::new().with("Deep", m).with("Last", M::Null).m(), None, own)
        }
    }
}

/// Inside a number of dictionaries and arrays.
fn nest(s: &mut Src, o: Obj<'_>, levels: u32, f: &impl Fn(Obj<'_>, &mut Src) -> (M, M)) -> (M, M) {
    if levels == 0 {
        return f(o, s);
    }
    if levels % 5 == 1 {
        let mut a = o.array();
        a.item(levels as i32);
        let (m, own) = nest(s, a.push(), levels - 1, f);
        return (M::Arr(vec![M::Int(levels as i64), m]), own);
    }
    let mut d = o.dict();
    d.pair(Name(b"L"), levels as i32);
    let (m, own) = nest(s, d.insert(Name(b"N")), levels - 1, f);
    d.pair(Name(b"E"), true);
    (D::new().with("L", M::Int(levels as i64)).with("N", m).with("E", M::Bool(true)).m(), own)
}

fn entries(m: &M) -> usize {
    match m {
        M::Dict(d) => d.iter().filter(|(k, _)| k != b"Type" && k != b"Subtype" && k != b"S").count(),
        M::Arr(a) => a.len() + 1,
        _ => 0,
    }
}

fn run(id: &'static str, s: &mut Src) -> Result<(), String> {
    let cases = of(id);
    let case = cases[s.below(cases.len() as u64) as usize];
    s.hit(case.name);
    let pretty = s.pretty();
    s.hit(if pretty { "pretty" } else { "compact" });
    let settings = Settings { pretty };
    let mut ids: Vec<i32> = gen_ids(s, 3, false);
    if s.one_in(4) {
        let big = match case.kind {
            // A whole file has a table with a row for every id.
            Kind::Doc(_) if s.one_in(50) => *s.pick(&[32_768, 65_535, 65_536, 65_537, 99_999, 100_000]),
            Kind::Doc(_) => s.range(250, 1100) as i32,
            _ => {
                let v = s.below(i32::MAX as u64) as i32;
                let edges = [9_999, 10_000, 32_768, 65_535, 65_536, 65_537, 99_999, 100_000, 1 << 24, i32::MAX, i32::MAX - 1];
                if s.coin() { *s.pick(&edges) } else { (v >> s.below(16)).max(1) }
            }
        };
        let at = s.usize(0, 3).min(1);
        if !ids.contains(&big) {
            ids[at] = big;
        }
    }
    let around = s.coin();
    s.hit(if around { "neighbours" } else { "nothing around" });
    // Now and then far into the output.
    let before = if s.one_in(2000) { *s.pick(&[300, 5000, 66_000, 1 << 20]) } else { 60 };
    let first = Item { id: ids[0], body: Body::gen(s, before) };
    let last = Item { id: ids[2], body: Body::gen(s, 60) };
    let own = Ref::new(ids[1]);

    if let Kind::Doc(f) = case.kind {
        let mut p = Pdf::with_settings(settings);
        if around {
            first.write(&mut p);
        }
        let m = f(s, &mut p, own);
        if around {
            last.write(&mut p);
        }
        s.nontrivial = entries(&m) >= 2;
        s.note(|| format!("{} pretty={pretty}: {}", case.name, show(&m)));
        let mut e = Expected {
            items: vec![],
            root: None,
            info: None,
            file_id: None,
            version: (1, 7),
            marker: [0x80; 4],
        };
        let item = |i: &Item| {
            let (m, data) = i.body.model();
            (i.id, m, data.map(|d| d.to_vec()))
        };
        if around {
            e.items.push(item(&first));
        }
        e.items.push((own.get(), m, None));
        if around {
            e.items.push(item(&last));
        }
        if case.name == "document catalog" {
            e.root = Some(own.get());
        } else {
            e.info = Some(own.get());
        }
        let d = read_table_doc(&p.finish())?;
        e.check_objects(&d.objects, None)?;
        return check(&e.trailer(1 + e.max_id() as i64).m(), &d.trailer).map_err(|m| format!("trailer: {m}"));
    }

    let mut c = Chunk::with_settings(settings);
    if around {
        first.write(&mut c);
    }
    let (m, data, inner) = match case.kind {
        Kind::Obj(f) => place(s, &mut c, own, f),
        Kind::Chunk(f) => {
            let m = f(s, &mut c, own);
            (m.clone(), None, m)
        }
        Kind::Stream(f) => {
            let data = stream_data(s, 500);
            let m = f(s, &mut c, own, &data);
            let mut whole = m.clone();
            if let M::Dict(d) = &mut whole {
                d.push((b"Length".to_vec(), M::Int(data.len() as i64)));
            }
            (whole, Some(data), m)
        }
        Kind::Doc(_) => unreachable!(),
    };
    if around {
        last.write(&mut c);
    }
    s.nontrivial = entries(&inner) >= 2;
    s.note(|| format!("{} pretty={pretty}: {}", case.name, show(&inner)));
    let objects = parse_chunk(c.as_bytes()).map_err(|e| format!("{}: {e}", case.name))?;
    let at = usize::from(around);
    if objects.len() != 1 + 2 * at {
        return Err(format!("{}: {} objects written, {} read", case.name, 1 + 2 * at, objects.len()));
    }
    if around {
        first.check(&objects[0]).map_err(|e| format!("before {}: {e}", case.name))?;
        last.check(&objects[2]).map_err(|e| format!("after {}: {e}", case.name))?;
    }
    let o = &objects[at];
    if o.id != own.get() as i64 || o.gen != 0 {
        return Err(format!("{}: expected object {} 0, read {} {}", case.name, own.get(), o.id, o.gen));
    }
    check(&m, &o.value).map_err(|e| format!("{}: {e}", case.name))?;
    if o.stream != data {
        return Err(format!(
            "{}: stream data differs ({:?} bytes written, {:?} read)",
            case.name,
            data.as_ref().map(|d| d.len()),
            o.stream.as_ref().map(|d| d.len())
        ));
    }
    // What the chunk says about itself.
    let refs: Vec<i32> = c.refs().map(|r| r.get()).collect();
    let expected: Vec<i32> = if around { ids } else { vec![own.get()] };
    if refs != expected {
        return Err(format!("{}: reported ids {refs:?}, written {expected:?}", case.name));
    }
    let mut lim = Lim::default();
    objects.iter().for_each(|o| lim.object(o));
    lim.expect(c.limits()).map_err(|e| format!("{}: {e}", case.name))
}
