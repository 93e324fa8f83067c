//! Generated content streams: the builder calls and the operations they ask for.

use crate::engine::Src;
use crate::gen::*;
use crate::pdf::{name, nums, D, M};
use crate::ops;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

pub type Op = (String, Vec<M>);

pub fn property_list(s: &mut Src, w: &mut PropertyList<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (int identify "MCID")
        (text actual_text "ActualText")
        (raw)
    );
    d.m()
}

pub fn artifact(s: &mut Src, w: &mut Artifact<'_>) -> M {
    let mut d = D::new();
    let custom = s.name_bytes();
    ops!(s, w, d;
        (en kind "Type" [
            ArtifactType::Pagination => "Pagination", ArtifactType::Layout => "Layout",
            ArtifactType::Page => "Page", ArtifactType::Background => "Background",
            ArtifactType::Inline => "Inline",
        ])
        (en subtype "Subtype" [
            ArtifactSubtype::Header => "Header", ArtifactSubtype::Footer => "Footer",
            ArtifactSubtype::Watermark => "Watermark", ArtifactSubtype::PageNumber => "PageNum",
            ArtifactSubtype::Bates => "Bates", ArtifactSubtype::LineNumber => "LineNum",
            ArtifactSubtype::Redaction => "Redaction",
        ])
        (act custom_subtype {
            w.subtype(ArtifactSubtype::Custom(Name(&custom)));
            d.put("Subtype", M::Name(custom.clone()));
        })
        (rect bounding_box "BBox")
        (act attached {
            use ArtifactAttachment::*;
            let t = [(Left, "Left"), (Top, "Top"), (Right, "Right"), (Bottom, "Bottom")];
            let n = s.len(20);
            let v: Vec<_> = (0..n).map(|_| *s.pick(&t)).collect();
            w.attached(lz(v.iter().map(|x| x.0)));
            d.put("Attached", M::Arr(v.iter().map(|x| name(x.1)).collect()));
        })
        (raw)
    );
    d.m()
}

fn mark(s: &mut Src, mut mc: MarkContent<'_>, args: &mut Vec<M>) {
    match s.below(5) {
        0 => {
            let n = s.name_bytes();
            mc.properties_named(Name(&n));
            args.push(M::Name(n));
        }
        1 => {
            // Through the operation underneath.
            let n = s.name_bytes();
            mc.operand(Name(&n));
            args.push(M::Name(n));
        }
        2 => {
            let mut a = mc.properties().artifact();
            args.push(s.nested(|s| artifact(s, &mut a)));
        }
        _ => {
            let mut p = mc.properties();
            args.push(s.nested(|s| property_list(s, &mut p)));
        }
    }
}

fn color_operand<'a>(s: &mut Src, custom: &'a [u8]) -> (ColorSpaceOperand<'a>, M) {
    use ColorSpaceOperand as C;
    match s.below(6) {
        0 => (C::DeviceGray, name("DeviceGray")),
        1 => (C::DeviceRgb, name("DeviceRGB")),
        2 => (C::DeviceCmyk, name("DeviceCMYK")),
        3 => (C::Pattern, name("Pattern")),
        4 => (C::Named(Name(custom)), M::Name(custom.to_vec())),
        _ => (Name(custom).into(), M::Name(custom.to_vec())),
    }
}

pub const CONTENT_OPS: u64 = 77;

/// Perform one random operation and report what it must read as.
pub fn content_op(s: &mut Src, c: &mut Content) -> Op {
    macro_rules! plain {
        ($m:ident $o:literal) => {{
            c.$m();
            ($o.to_string(), vec![])
        }};
    }
    macro_rules! n {
        ($m:ident $o:literal $($x:ident)*) => {{
            $( let $x = s.num(); )*
            c.$m($($x),*);
            ($o.to_string(), vec![$( M::Num($x) ),*])
        }};
    }
    macro_rules! nm {
        ($m:ident $o:literal) => {{
            let v = s.name_bytes();
            c.$m(Name(&v));
            ($o.to_string(), vec![M::Name(v)])
        }};
    }
    macro_rules! st {
        ($m:ident $o:literal) => {{
            let v = s.bytes(200);
            c.$m(Str(&v));
            ($o.to_string(), vec![M::Str(v)])
        }};
    }
    macro_rules! en {
        ($m:ident $o:literal $t:expr) => {{
            let t = $t;
            let i = s.usize(0, t.len() - 1);
            c.$m(t[i].0);
            ($o.to_string(), vec![t[i].1.clone()])
        }};
    }
    let k = s.below(CONTENT_OPS);
    let op: Op = match k {
        0 => {
            let v = s.num().abs();
            c.set_line_width(v);
            ("w".into(), vec![M::Num(v)])
        }
        1 => en!(set_line_cap "J" [
            (LineCapStyle::ButtCap, M::Int(0)), (LineCapStyle::RoundCap, M::Int(1)),
            (LineCapStyle::ProjectingSquareCap, M::Int(2)),
        ]),
        2 => en!(set_line_join "j" [
            (LineJoinStyle::MiterJoin, M::Int(0)), (LineJoinStyle::RoundJoin, M::Int(1)),
            (LineJoinStyle::BevelJoin, M::Int(2)),
        ]),
        3 => n!(set_miter_limit "M" a),
        4 | 75 => {
            let v = s.nums(130);
            let p = s.num();
            c.set_dash_pattern(lz(v.iter().copied()), p);
            ("d".into(), vec![nums(&v), M::Num(p)])
        }
        5 => en!(set_rendering_intent "ri" [
            (RenderingIntent::AbsoluteColorimetric, name("AbsoluteColorimetric")),
            (RenderingIntent::RelativeColorimetric, name("RelativeColorimetric")),
            (RenderingIntent::Saturation, name("Saturation")),
            (RenderingIntent::Perceptual, name("Perceptual")),
        ]),
        6 => {
            let v = s.range(0, 100) as i32;
            c.set_flatness(v);
            ("i".into(), vec![M::Int(v as i64)])
        }
        7 => nm!(set_parameters "gs"),
        8 | 72 => plain!(save_state "q"),
        9 | 73 => plain!(restore_state "Q"),
        10 => {
            let m: [f32; 6] = s.arr();
            c.transform(m);
            ("cm".into(), m.map(M::Num).to_vec())
        }
        11 => n!(move_to "m" a b),
        12 => n!(line_to "l" a b),
        13 => n!(cubic_to "c" a b d e f g),
        14 => n!(cubic_to_initial "v" a b d e),
        15 => n!(cubic_to_final "y" a b d e),
        16 => plain!(close_path "h"),
        17 => n!(rect "re" a b d e),
        18 => plain!(stroke "S"),
        19 => plain!(close_and_stroke "s"),
        20 => plain!(fill_nonzero "f"),
        21 => plain!(fill_even_odd "f*"),
        22 => plain!(fill_nonzero_and_stroke "B"),
        23 => plain!(fill_even_odd_and_stroke "B*"),
        24 => plain!(close_fill_nonzero_and_stroke "b"),
        25 => plain!(close_fill_even_odd_and_stroke "b*"),
        26 => plain!(end_path "n"),
        27 => plain!(clip_nonzero "W"),
        28 => plain!(clip_even_odd "W*"),
        29 => plain!(begin_text "BT"),
        30 => plain!(end_text "ET"),
        31 => n!(set_char_spacing "Tc" a),
        32 => n!(set_word_spacing "Tw" a),
        33 => n!(set_horizontal_scaling "Tz" a),
        34 => n!(set_leading "TL" a),
        35 => {
            let v = s.name_bytes();
            let z = s.num();
            c.set_font(Name(&v), z);
            ("Tf".into(), vec![M::Name(v), M::Num(z)])
        }
        36 => en!(set_text_rendering_mode "Tr" [
            (TextRenderingMode::Fill, M::Int(0)), (TextRenderingMode::Stroke, M::Int(1)),
            (TextRenderingMode::FillStroke, M::Int(2)), (TextRenderingMode::Invisible, M::Int(3)),
            (TextRenderingMode::FillClip, M::Int(4)), (TextRenderingMode::StrokeClip, M::Int(5)),
            (TextRenderingMode::FillStrokeClip, M::Int(6)), (TextRenderingMode::Clip, M::Int(7)),
        ]),
        37 => n!(set_rise "Ts" a),
        38 => n!(next_line "Td" a b),
        39 => n!(next_line_and_set_leading "TD" a b),
        40 => {
            let m: [f32; 6] = s.arr();
            c.set_text_matrix(m);
            ("Tm".into(), m.map(M::Num).to_vec())
        }
        41 => plain!(next_line_using_leading "T*"),
        42 => st!(show "Tj"),
        43 => st!(next_line_show "'"),
        44 => {
            let (a, b) = (s.num(), s.num());
            let v = s.bytes(100);
            c.next_line_show_and_set_word_and_char_spacing(a, b, Str(&v));
            ("\"".into(), vec![M::Num(a), M::Num(b), M::Str(v)])
        }
        45 | 76 => {
            let n = s.len(130);
            let mut v = Vec::new();
            let mut p = c.show_positioned();
            let mut it = p.items();
            for _ in 0..n {
                match s.below(4) {
                    0 | 1 => {
                        let b = s.bytes(60);
                        it.show(Str(&b));
                        v.push(M::Str(b));
                    }
                    2 => {
                        let a = s.num();
                        it.adjust(a);
                        v.push(M::Num(a));
                    }
                    _ => {
                        // Through the array underneath.
                        let a = s.int();
                        it.item(a);
                        v.push(M::Int(a as i64));
                    }
                }
            }
            if s.coin() {
                it.finish();
                p.finish();
            }
            ("TJ".into(), vec![M::Arr(v)])
        }
        46 => {
            let a = s.num();
            c.start_color_glyph(a);
            ("d0".into(), vec![M::Num(a), M::Num(0.0)])
        }
        47 => {
            let v: [f32; 5] = std::array::from_fn(|_| s.num());
            c.start_shape_glyph(v[0], v[1], v[2], v[3], v[4]);
            let mut m = v.map(M::Num).to_vec();
            m.insert(1, M::Num(0.0));
            ("d1".into(), m)
        }
        48 | 49 => {
            let custom = s.name_bytes();
            let (o, m) = color_operand(s, &custom);
            if k == 48 {
                c.set_stroke_color_space(o);
            } else {
                c.set_fill_color_space(o);
            }
            (if k == 48 { "CS" } else { "cs" }.into(), vec![m])
        }
        50 | 51 => {
            let v = s.nums(40);
            if k == 50 {
                c.set_stroke_color(lz(v.iter().copied()));
            } else {
                c.set_fill_color(lz(v.iter().copied()));
            }
            (if k == 50 { "SCN" } else { "scn" }.into(), v.into_iter().map(M::Num).collect())
        }
        52 | 53 => {
            let v = s.nums(40);
            let n = s.name_bytes();
            if k == 52 {
                c.set_stroke_pattern(lz(v.iter().copied()), Name(&n));
            } else {
                c.set_fill_pattern(lz(v.iter().copied()), Name(&n));
            }
            let mut m: Vec<M> = v.into_iter().map(M::Num).collect();
            m.push(M::Name(n));
            (if k == 52 { "SCN" } else { "scn" }.into(), m)
        }
        54 => n!(set_stroke_gray "G" a),
        55 => n!(set_fill_gray "g" a),
        56 => n!(set_stroke_rgb "RG" a b d),
        57 => n!(set_fill_rgb "rg" a b d),
        58 => n!(set_stroke_cmyk "K" a b d e),
        59 => n!(set_fill_cmyk "k" a b d e),
        60 => nm!(shading "sh"),
        61 => nm!(x_object "Do"),
        62 => nm!(marked_content_point "MP"),
        63 | 64 => {
            let tag = s.name_bytes();
            let mut args = vec![M::Name(tag.clone())];
            mark(s, c.marked_content_point_with_properties(Name(&tag)), &mut args);
            ("DP".into(), args)
        }
        65 => nm!(begin_marked_content "BMC"),
        66 | 67 => {
            let tag = s.name_bytes();
            let mut args = vec![M::Name(tag.clone())];
            mark(s, c.begin_marked_content_with_properties(Name(&tag)), &mut args);
            ("BDC".into(), args)
        }
        68 => plain!(end_marked_content "EMC"),
        69 => plain!(begin_compat "BX"),
        70 => plain!(end_compat "EX"),
        _ => {
            // An arbitrary operation.
            let o = *s.pick(&["x", "Tj", "myop", "T*", "qq", "sh", "\"", "R1", "d0", "nul"]);
            let mut op = c.op(o);
            let n = s.count(0, 4);
            let mut args = Vec::new();
            for _ in 0..n {
                match s.below(5) {
                    0 => {
                        let v = s.num();
                        if v.to_bits() % 2 == 0 { op.operand(v) } else { op.operand(&v) };
                        args.push(M::Num(v));
                    }
                    1 => {
                        let v = s.ints(6);
                        if v.len() % 2 == 0 { op.operands(lz(v.iter())) } else { op.operands(lz(v.iter().copied())) };
                        args.extend(v.into_iter().map(|v| M::Int(v as i64)));
                    }
                    2 => {
                        let d = s.name_bytes();
                        op.operand(Name(&d));
                        args.push(M::Name(d));
                    }
                    _ => {
                        let d = s.below(3) as u32;
                        let t = Tree::gen(s, d);
                        t.write(op.obj());
                        args.push(t.model());
                    }
                }
            }
            if s.coin() {
                op.finish();
            }
            (o.to_string(), args)
        }
    };
    op
}
