//! Generated chunks and document histories, shared by the document-level checks.

use crate::engine::{Script, Src};
use crate::gen::Tree;
use crate::pdf::{check, get, int_of, Indirect, M};
use pdf_writer::*;

#[derive(Debug, Clone)]
pub enum Body {
    Tree(Tree),
    Stream { dict: Vec<(Vec<u8>, Tree)>, data: Vec<u8> },
    /// One of the typed writers.
    Typed(Box<Typed>),
}

/// A typed object: the choices which write it, and what it then is.
#[derive(Debug, Clone)]
pub struct Typed {
    script: Script,
    pub model: M,
    pub data: Option<Vec<u8>>,
    refs: Vec<i32>,
}

impl Typed {
    fn gen(s: &mut Src) -> Typed {
        s.hit("typed object");
        let mut c = Chunk::new();
        let ((mut model, data), script) = s.script(|s| crate::typed::any(s, &mut c, Ref::new(1)));
        if let (M::Dict(d), Some(data)) = (&mut model, &data) {
            d.push((b"Length".to_vec(), M::Int(data.len() as i64)));
        }
        // The references in the order in which they are written; if that cannot
        // be read, the checks of the object itself will say so.
        let mut refs = Vec::new();
        if let Ok(objects) = crate::pdf::parse_chunk(c.as_bytes()) {
            objects.iter().for_each(|o| refs_of(&o.value, &mut refs));
        }
        Typed { script, model, data, refs }
    }

    fn write(&self, chunk: &mut Chunk, id: Ref) {
        crate::typed::any(&mut self.script.src(), chunk, id);
    }
}

fn refs_of(m: &M, out: &mut Vec<i32>) {
    match m {
        M::RefTok(n, _) => out.push(*n as i32),
        M::Arr(v) => v.iter().for_each(|m| refs_of(m, out)),
        M::Dict(v) => v.iter().for_each(|(_, m)| refs_of(m, out)),
        _ => {}
    }
}

fn map_model(m: &M, f: &mut dyn FnMut(i32) -> i32) -> M {
    match m {
        M::Ref(n) => M::Ref(f(*n as i32) as i64),
        M::Arr(v) => M::Arr(v.iter().map(|m| map_model(m, f)).collect()),
        M::Dict(v) => M::Dict(v.iter().map(|(k, m)| (k.clone(), map_model(m, f))).collect()),
        M::OneOf(v) => M::OneOf(v.iter().map(|m| map_model(m, f)).collect()),
        m => m.clone(),
    }
}

#[derive(Debug, Clone)]
pub struct Item {
    pub id: i32,
    pub body: Body,
}

/// Stream data full of things that look like file structure.
pub fn stream_data(s: &mut Src, big: usize) -> Vec<u8> {
    if let Some(n) = s.new_size(24, 0, 3_000_000) {
        return vec![b'x'; n];
    }
    match s.below(12) {
        0..=3 => s.bytes(300),
        4 => Vec::new(),
        5 => {
            const P: [&[u8]; 12] = [
                b"\r", b"\n", b"\r\n", b"\nendstream", b"\nendstream\nendobj\n", b"endobj", b"\nendstream\nendobj\n\n7 0 obj\n<<>>\nendobj\n",
                b"5 0 R", b">>\nstream\n", b"xref\n0 1\n", b"startxref\n0\n%%EOF", b"%",
            ];
            let n = s.usize(1, 4);
            let mut o = Vec::new();
            for _ in 0..n {
                o.extend(*s.pick(&P));
            }
            o
        }
        6 => {
            // Ends in a line end, or is only line ends.
            let mut o = s.bytes(20);
            o.extend(*s.pick(&[&b"\n"[..], b"\r", b"\r\n", b"\n\n", b" "]));
            o
        }
        7..=9 => {
            let n = s.usize(0, 80);
            (0..n).map(|_| s.below(256) as u8).collect()
        }
        10 => {
            let n = *s.pick(&[255usize, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 9999, 10000, 65535, 65536]);
            let b = s.below(256) as u8;
            vec![b; n.min(big)]
        }
        _ => {
            let n = s.usize(0, big);
            let seed = s.below(1 << 20);
            (0..n as u64).map(|i| ((i * 2654435761 + seed) >> 7) as u8).collect()
        }
    }
}

impl Body {
    pub fn gen(s: &mut Src, big: usize) -> Body {
        if s.one_in(10) {
            return Body::Typed(Box::new(Typed::gen(s)));
        }
        if s.below(3) < 2 {
            let d = if big < 100 { s.below(2) } else { s.below(4) } as u32;
            Body::Tree(match Tree::gen_extreme(s, 6000) {
                Some(t) => t,
                None => Tree::gen(s, d),
            })
        } else {
            let n = s.usize(0, 3);
            let dict = (0..n)
                .map(|_| {
                    let mut k = s.name_bytes();
                    if k == b"Length" {
                        k.push(b'x');
                    }
                    let d = s.below(3) as u32;
                    (k, Tree::gen(s, d))
                })
                .collect();
            Body::Stream { dict, data: stream_data(s, big) }
        }
    }

    pub fn refs(&self, out: &mut Vec<i32>) {
        match self {
            Body::Tree(t) => t.refs(out),
            Body::Stream { dict, .. } => dict.iter().for_each(|(_, t)| t.refs(out)),
            Body::Typed(t) => out.extend(&t.refs),
        }
    }

    pub fn map_refs(&self, f: &mut dyn FnMut(i32) -> i32) -> Body {
        match self {
            Body::Tree(t) => Body::Tree(t.map_refs(f)),
            Body::Stream { dict, data } => Body::Stream {
                dict: dict.iter().map(|(k, t)| (k.clone(), t.map_refs(f))).collect(),
                data: data.clone(),
            },
            Body::Typed(t) => Body::Typed(Box::new(Typed {
                model: map_model(&t.model, f),
                refs: t.refs.iter().map(|r| f(*r)).collect(),
                ..(**t).clone()
            })),
        }
    }

    /// What a reader finds: the object, and the data if it is a stream.
    pub fn model(&self) -> (M, Option<&[u8]>) {
        match self {
            Body::Tree(t) => (t.model(), None),
            Body::Stream { dict, data } => {
                let mut e: Vec<(Vec<u8>, M)> = dict.iter().map(|(k, t)| (k.clone(), t.model())).collect();
                e.push((b"Length".to_vec(), M::Int(data.len() as i64)));
                (M::Dict(e), Some(data))
            }
            Body::Typed(t) => (t.model.clone(), t.data.as_deref()),
        }
    }
}

impl Item {
    pub fn write(&self, chunk: &mut Chunk) {
        let id = Ref::new(self.id);
        match &self.body {
            Body::Tree(t) => t.write(chunk.indirect(id)),
            Body::Stream { dict, data } => {
                let mut st = chunk.stream(id, data);
                for (k, t) in dict {
                    t.write(st.insert(Name(k)));
                }
            }
            Body::Typed(t) => t.write(chunk, id),
        }
    }

    pub fn check(&self, ind: &Indirect) -> Result<(), String> {
        if ind.id != self.id as i64 || ind.gen != 0 {
            return Err(format!("expected object {} 0, read {} {}", self.id, ind.id, ind.gen));
        }
        let ctx = |e: String| format!("object {}: {e}", self.id);
        let (m, data) = self.body.model();
        if data.is_none() && ind.stream.is_some() {
            return Err(ctx("unexpected stream".into()));
        }
        check(&m, &ind.value).map_err(ctx)?;
        if ind.stream.as_deref() != data {
            return Err(ctx(format!(
                "stream data differs ({:?} bytes written, {:?} read)",
                data.map(|d| d.len()),
                ind.stream.as_ref().map(|d| d.len())
            )));
        }
        Ok(())
    }
}

/// Distinct object ids in a generated writing order.
pub fn gen_ids(s: &mut Src, n: usize, huge: bool) -> Vec<i32> {
    let mut out: Vec<i32> = Vec::new();
    let mut seen = std::collections::HashSet::new();
    let style = if n > 1500 { *s.pick(&[0, 2, 3, 6]) } else { s.below(8) };
    let mut next = 1i32;
    for i in 0..n {
        let id = match style {
            0 | 1 => i as i32 + 1,
            2 => {
                next += if s.below(3) == 0 { s.range(1, 5) as i32 } else { 0 };
                let v = next;
                next += 1;
                v
            }
            3 => s.range(1, 2 * n as i64 + 2) as i32,
            4 => s.range(1, 300) as i32,
            5 => *s.pick(&[1, 2, 3, 9, 10, 99, 100, 127, 128, 254, 255, 256, 257, 511, 512, 999, 1000, 1001]),
            6 => i as i32 + 2 + (n as i32),
            _ => {
                if huge && s.one_in(6) {
                    *s.pick(&[9999, 10000, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 99999, 100000])
                } else {
                    s.range(1, 40) as i32
                }
            }
        };
        let mut id = match s.new_size(30, 1, if huge { 1_000_000 } else { 5000 }) {
            Some(v) => v as i32,
            None => id,
        };
        while !seen.insert(id) {
            id += 1;
        }
        out.push(id);
    }
    // Writing order.
    match s.below(4) {
        0 | 1 => {}
        2 => out.reverse(),
        _ => {
            for i in (1..out.len()).rev() {
                let j = s.usize(0, i);
                out.swap(i, j);
            }
        }
    }
    out
}

pub fn settings(s: &mut Src) -> Settings {
    Settings { pretty: s.pretty() }
}

/// A tree of chunks merged into one another.
#[derive(Debug, Clone)]
pub enum Part {
    Item(Item),
    Merge { pretty: bool, parts: Vec<Part> },
}

pub fn gen_parts(s: &mut Src, ids: &[i32], depth: u32, big: usize) -> Vec<Part> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < ids.len() {
        if depth > 0 && s.one_in(4) {
            let k = s.usize(0, ids.len() - i);
            let pretty = s.pretty();
            let parts = gen_parts(s, &ids[i..i + k], depth - 1, big);
            out.push(Part::Merge { pretty, parts });
            i += k;
        } else {
            out.push(Part::Item(Item { id: ids[i], body: Body::gen(s, big) }));
            i += 1;
        }
    }
    if depth > 0 && s.one_in(10) {
        out.push(Part::Merge { pretty: s.pretty(), parts: vec![] });
    }
    out
}

pub fn flatten<'p>(parts: &'p [Part], out: &mut Vec<&'p Item>) {
    for p in parts {
        match p {
            Part::Item(i) => out.push(i),
            Part::Merge { parts, .. } => flatten(parts, out),
        }
    }
}

pub fn write_parts(parts: &[Part], chunk: &mut Chunk) {
    for p in parts {
        match p {
            Part::Item(i) => i.write(chunk),
            Part::Merge { pretty, parts } => {
                let mut c = Chunk::with_settings(Settings { pretty: *pretty });
                write_parts(parts, &mut c);
                chunk.extend(&c);
            }
        }
    }
}

/// One step of a document history.
#[derive(Debug, Clone)]
pub enum Step {
    Part(Part),
    /// Merge through a renumbering: (id now, id then).
    Renumber { pretty: bool, parts: Vec<Part>, map: Vec<(i32, i32)> },
    Version(u8, u8),
    Marker([u8; 4]),
    FileId(Vec<u8>, Vec<u8>),
    Catalog { id: i32, pages: i32 },
    Info { id: i32, title: String },
}

#[derive(Debug, Clone)]
pub struct History {
    pub pretty: bool,
    pub steps: Vec<Step>,
}

pub struct Expected {
    pub items: Vec<(i32, M, Option<Vec<u8>>)>,
    pub root: Option<i32>,
    pub info: Option<i32>,
    pub file_id: Option<(Vec<u8>, Vec<u8>)>,
    pub version: (u8, u8),
    pub marker: [u8; 4],
}

impl History {
    pub fn gen(s: &mut Src, max: usize, big: usize, huge: bool) -> History {
        let n = match s.below(10) {
            _ if max > 100 => s.usize(max / 2, max),
            0 => 0,
            1..=7 => s.usize(1, max.min(9)),
            _ => match s.new_size(2, 0, 3000) {
                Some(n) => n,
                None => s.usize(0, max),
            },
        };
        let ids = gen_ids(s, n, huge);
        let mut steps = Vec::new();
        let mut i = 0;
        while i < n {
            match s.below(16) {
                0 => steps.push(Step::Catalog { id: ids[i], pages: s.id() }),
                1 => steps.push(Step::Info { id: ids[i], title: s.text(20) }),
                2 => {
                    let k = s.usize(1, (n - i).min(4));
                    let old: Vec<i32> = (1..=k as i32).collect();
                    let map: Vec<(i32, i32)> = old.iter().map(|&o| (o, ids[i + o as usize - 1])).collect();
                    let parts = gen_parts(s, &old, 0, big);
                    steps.push(Step::Renumber { pretty: s.pretty(), parts, map });
                    i += k;
                    continue;
                }
                3 | 4 => {
                    let k = s.usize(0, (n - i).min(5));
                    let parts = gen_parts(s, &ids[i..i + k], 2, big);
                    steps.push(Step::Part(Part::Merge { pretty: s.pretty(), parts }));
                    i += k;
                    continue;
                }
                _ => steps.push(Step::Part(Part::Item(Item { id: ids[i], body: Body::gen(s, big) }))),
            }
            i += 1;
        }
        let extra = if n > 100 { 3 + s.below(6) } else { s.below(3) };
        for _ in 0..extra {
            let st = match s.below(3) {
                0 => Step::Version(
                    *s.pick(&[1, 2, 0, 3, 9, 10, 11, 255]),
                    *s.pick(&[7, 0, 4, 5, 6, 9, 3, 10, 47, 255]),
                ),
                1 => {
                    let m: [u8; 4] = std::array::from_fn(|_| 128 + s.below(128) as u8);
                    Step::Marker(m)
                }
                _ => Step::FileId(s.bytes(40), s.bytes(40)),
            };
            let at = s.usize(0, steps.len());
            steps.insert(at, st);
        }
        History { pretty: s.pretty(), steps }
    }

    pub fn apply_to(&self, pdf: &mut Pdf) {
        for st in &self.steps {
            match st {
                Step::Part(p) => write_parts(std::slice::from_ref(p), pdf),
                Step::Renumber { pretty, parts, map } => {
                    let mut c = Chunk::with_settings(Settings { pretty: *pretty });
                    write_parts(parts, &mut c);
                    let f = |r: Ref| Ref::new(image(map, r.get()));
                    c.renumber_into(pdf, f);
                }
                Step::Version(a, b) => pdf.set_version(*a, *b),
                Step::Marker(m) => pdf.set_binary_marker(m),
                Step::FileId(a, b) => pdf.set_file_id((a.clone(), b.clone())),
                Step::Catalog { id, pages } => {
                    pdf.catalog(Ref::new(*id)).pages(Ref::new(*pages));
                }
                Step::Info { id, title } => {
                    pdf.document_info(Ref::new(*id)).title(TextStr(title));
                }
            }
        }
    }

    pub fn build(&self) -> Pdf {
        let mut pdf = Pdf::with_settings(Settings { pretty: self.pretty });
        self.apply_to(&mut pdf);
        pdf
    }

    pub fn expected(&self) -> Expected {
        let mut e = Expected {
            items: vec![],
            root: None,
            info: None,
            file_id: None,
            version: (1, 7),
            marker: [0x80; 4],
        };
        fn add(it: &Item, e: &mut Expected) {
            let (m, data) = it.body.model();
            e.items.push((it.id, m, data.map(|d| d.to_vec())));
        }
        for st in &self.steps {
            match st {
                Step::Part(p) => {
                    let mut v = Vec::new();
                    flatten(std::slice::from_ref(p), &mut v);
                    v.iter().for_each(|i| add(i, &mut e));
                }
                Step::Renumber { parts, map, .. } => {
                    let mut v = Vec::new();
                    flatten(parts, &mut v);
                    for i in v {
                        let b = i.body.map_refs(&mut |r| image(map, r));
                        add(&Item { id: image(map, i.id), body: b }, &mut e);
                    }
                }
                Step::Version(a, b) => {
                    // Digits above nine cannot be written and are ignored.
                    if *a < 10 {
                        e.version.0 = *a;
                    }
                    if *b < 10 {
                        e.version.1 = *b;
                    }
                }
                Step::Marker(m) => e.marker = *m,
                Step::FileId(a, b) => e.file_id = Some((a.clone(), b.clone())),
                Step::Catalog { id, pages } => {
                    e.root = Some(*id);
                    let m = crate::pdf::D::ty("Catalog").with("Pages", M::Ref(*pages as i64)).m();
                    e.items.push((*id, m, None));
                }
                Step::Info { id, title } => {
                    e.info = Some(*id);
                    let m = crate::pdf::D::new().with("Title", M::Text(title.clone())).m();
                    e.items.push((*id, m, None));
                }
            }
        }
        e
    }
}

/// The renumbering used when merging: the listed pairs, everything else far away.
pub fn image(map: &[(i32, i32)], id: i32) -> i32 {
    map.iter().find(|(a, _)| *a == id).map_or_else(|| (id % 1000) + 5_000_000, |(_, b)| *b)
}

impl Expected {
    pub fn max_id(&self) -> i32 {
        self.items.iter().map(|i| i.0).max().unwrap_or(0)
    }

    /// Check the objects of a parsed document, apart from those in `skip`.
    pub fn check_objects(&self, objects: &[Indirect], skip: Option<i64>) -> Result<(), String> {
        let got: Vec<&Indirect> = objects.iter().filter(|o| Some(o.id) != skip).collect();
        if got.len() != self.items.len() {
            return Err(format!("{} objects written, the cross-reference lists {}", self.items.len(), got.len()));
        }
        let by_id: std::collections::HashMap<i64, &Indirect> = got.iter().map(|o| (o.id, *o)).collect();
        for (id, m, data) in &self.items {
            let Some(o) = by_id.get(&(*id as i64)) else {
                return Err(format!("object {id} is not in the cross-reference"));
            };
            check(m, &o.value).map_err(|e| format!("object {id}: {e}"))?;
            if &o.stream != data {
                return Err(format!("object {id}: stream data differs"));
            }
        }
        // Objects appear in the file in the order of writing.
        let mut at = 0;
        for (id, ..) in &self.items {
            let o = by_id[&(*id as i64)];
            if o.start < at {
                return Err(format!("object {id} is out of order in the file"));
            }
            at = o.end;
        }
        Ok(())
    }

    /// The trailer entries both kinds of finished file share.
    pub fn trailer(&self, size: i64) -> crate::pdf::D {
        let mut d = crate::pdf::D::new();
        d.put("Size", M::Int(size));
        if let Some(r) = self.root {
            d.put("Root", M::Ref(r as i64));
        }
        if let Some(r) = self.info {
            d.put("Info", M::Ref(r as i64));
        }
        if let Some((a, b)) = &self.file_id {
            d.put("ID", M::Arr(vec![M::Str(a.clone()), M::Str(b.clone())]));
        }
        d
    }
}

pub fn length_of(o: &Indirect) -> Option<i64> {
    int_of(get(&o.value, "Length"))
}

/// Limits recomputed from parsed output.
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Lim {
    pub int: i64,
    pub real: f32,
    pub name: usize,
    pub str: usize,
    pub arr: usize,
    pub dict: usize,
}

impl Lim {
    pub fn int(&mut self, v: i64) {
        self.int = self.int.max(v.abs().min(i32::MAX as i64));
    }
    pub fn add(&mut self, m: &M) {
        match m {
            M::Tok(t) => {
                let as_int = if crate::pdf::is_int_token(t) { t.parse::<i64>().ok() } else { None };
                match as_int {
                    Some(v) if i32::try_from(v).is_ok() => self.int(v),
                    _ => self.real = self.real.max(t.parse::<f32>().unwrap_or(0.0).abs()),
                }
            }
            M::RefTok(i, _) => self.int(*i),
            M::Str(b) => self.str = self.str.max(b.len()),
            M::Name(b) => self.name = self.name.max(b.len()),
            M::Arr(v) => {
                self.arr = self.arr.max(v.len());
                v.iter().for_each(|x| self.add(x));
            }
            M::Dict(v) => {
                self.dict = self.dict.max(v.len());
                for (k, x) in v {
                    self.name = self.name.max(k.len());
                    self.add(x);
                }
            }
            _ => {}
        }
    }
    pub fn object(&mut self, o: &Indirect) {
        self.int(o.id);
        self.add(&o.value);
    }
    pub fn max(&mut self, o: &Lim) {
        self.int = self.int.max(o.int);
        self.real = self.real.max(o.real);
        self.name = self.name.max(o.name);
        self.str = self.str.max(o.str);
        self.arr = self.arr.max(o.arr);
        self.dict = self.dict.max(o.dict);
    }
    pub fn of(l: &Limits) -> Lim {
        Lim {
            int: l.int() as i64,
            real: l.real(),
            name: l.name_len(),
            str: l.str_len(),
            arr: l.array_len(),
            dict: l.dict_entries(),
        }
    }
    pub fn expect(&self, l: &Limits) -> Result<(), String> {
        let got = Lim::of(l);
        if &got == self {
            Ok(())
        } else {
            Err(format!("limits written {self:?}, reported {got:?}"))
        }
    }
}
