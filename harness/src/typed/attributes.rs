//! Structure attributes.

use super::*;

pub fn attributes(s: &mut Src, mut w: Attributes<'_>) -> M {
    let mut d = D::new();
    // A class may be specialised at once or after generic entries.
    if s.below(6) == 0 {
        put_raw(s, &mut w, &mut d);
    }
    let (own, kind) = (s.below(8), s.coin());
    match own {
        0 => {
            let w = &mut w;
            ops!(s, w, d;
                (act owner {
                    let (o, m) = owner(s, kind);
                    w.owner(o, kind);
                    d.put("O", m);
                })
                (raw)
            );
        }
        1 => {
            s.hit("attributes user");
            let m = {
                let mut a = w.user();
                let n = s.count(0, 3);
                let mut v = Vec::new();
                for _ in 0..n {
                    let mut c = a.push();
                    v.push(user_property(s, &mut c));
                }
                M::Arr(v)
            };
            d.put("O", name("UserProperties"));
            d.put("P", m);
        }
        2 => {
            let mut l = w.layout();
            layout_attributes(s, &mut l, d.clone()).0.into_iter().for_each(|x| d.0.push(x));
        }
        3 => {
            let mut l = w.list();
            list_attributes(s, &mut l, &mut d);
        }
        4 => {
            let mut l = w.field();
            field_attributes(s, &mut l, &mut d);
        }
        5 => {
            let mut l = w.table();
            table_attributes(s, &mut l, &mut d);
        }
        6 => {
            if kind {
                let mut l = w.artifact();
                artifact_attributes(s, &mut l, &mut d);
            } else {
                let mut l = w.note();
                note_attributes(s, &mut l, &mut d);
            }
        }
        _ => {
            s.hit("attributes namespace");
            let ns = s.rf();
            let mut x = w.namespace(ns);
            d.put("O", name("NSO"));
            d.put("NS", ref_m(ns));
            let n = s.usize(0, 2);
            for _ in 0..n {
                put_raw(s, &mut x, &mut d);
            }
        }
    }
    d.m()
}

fn owner(s: &mut Src, iso: bool) -> (AttributeOwner, M) {
    use AttributeOwner::*;
    let (o, n) = *s.pick(&[
        (Layout, "Layout"), (List, "List"), (PrintField, "PrintField"), (Table, "Table"),
        (Artifact, "Artifact"), (Xml, "XML-1.00"), (Html3_2, "HTML-3.20"), (Html4, "HTML-4.01"),
        (Html5, "HTML-5.00"), (Oeb, "OEB-1.00"), (Rtf1_05, "RTF-1.05"),
        (Css1, if iso { "CSS-1" } else { "CSS-1.00" }), (Css2, if iso { "CSS-2" } else { "CSS-2.00" }),
        (Css3, "CSS-3"), (Rdfa1_1, "RDFa-1.10"), (Aria1_1, "ARIA-1.1"), (FENote, "FENote"),
        (NSO, "NSO"), (User, "UserProperties"),
    ]);
    (o, name(n))
}

pub fn user_property(s: &mut Src, w: &mut UserProperty<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (text name "N")
        (act value {
            let t = Tree::gen(s, 1);
            t.write(w.value());
            d.put("V", t.model());
        })
        (text format "F")
        (boolean hidden "H")
        (raw)
    );
    d.m()
}

/// Four sides, often alike.
fn sides<T: Clone + PartialEq>(s: &mut Src, mut f: impl FnMut(&mut Src) -> (T, M)) -> (Sides<T>, M) {
    let first = f(s);
    let mut v = vec![first.clone(), first.clone(), first.clone(), first];
    match s.below(4) {
        0 => {}
        1 | 2 => {
            // One or two odd ones out.
            let i = s.usize(0, 3);
            v[i] = f(s);
        }
        _ => {
            for x in v.iter_mut() {
                *x = f(s);
            }
        }
    }
    let uniform = v.iter().all(|x| x.0 == v[0].0);
    s.hit(if uniform { "sides uniform" } else { "sides individual" });
    let all = M::Arr(v.iter().map(|x| x.1.clone()).collect());
    // One value for all sides, or one for each.
    let m = if uniform { M::OneOf(vec![v[0].1.clone(), all]) } else { all };
    let [a, b, c, e]: [T; 4] = std::array::from_fn(|i| v[i].0.clone());
    let sd = match s.below(3) {
        0 => Sides::new(a, b, c, e),
        1 => Sides::from_array([a, b, c, e]),
        _ if uniform => Sides::uniform(a),
        _ => Sides { before: a, after: b, start: c, end: e },
    };
    (sd, m)
}

fn border_style(s: &mut Src) -> (LayoutBorderStyle, M) {
    use LayoutBorderStyle::*;
    let (b, n) = *s.pick(&[
        (None, "None"), (Hidden, "Hidden"), (Solid, "Solid"), (Dashed, "Dashed"), (Dotted, "Dotted"),
        (Double, "Double"), (Groove, "Groove"), (Ridge, "Ridge"), (Inset, "Inset"), (Outset, "Outset"),
    ]);
    (b, name(n))
}

fn number(s: &mut Src) -> (f32, M) {
    let v = s.num();
    (v, M::Num(v))
}

fn rgb(s: &mut Src) -> ([f32; 3], M) {
    let v: [f32; 3] = s.arr();
    (v, nums_m(&v))
}

fn track_sizes(s: &mut Src, w: TrackSizes<'_>) -> M {
    if s.coin() {
        let v = s.num();
        w.uniform(v);
        M::Num(v)
    } else {
        let v = s.nums(50);
        w.individual().items(lz(v.iter().copied()));
        nums_m(&v)
    }
}

/// Only the entries added.
fn layout_attributes(s: &mut Src, w: &mut LayoutAttributes<'_>, _: D) -> D {
    let mut d = D::new().with("O", name("Layout"));
    ops!(s, w, d;
        (en placement "Placement" [
            Placement::Block => "Block", Placement::Inline => "Inline", Placement::Before => "Before",
            Placement::Start => "Start", Placement::End => "End",
        ])
        (en writing_mode "WritingMode" [
            WritingMode::LtrTtb => "LrTb", WritingMode::RtlTtb => "RlTb", WritingMode::TtbRtl => "TbRl",
        ])
        (fixed background_color "BackgroundColor" 3)
        (act border_color { let (v, m) = sides(s, rgb); w.border_color(v); d.put("BorderColor", m); })
        (act border_style { let (v, m) = sides(s, border_style); w.border_style(v); d.put("BorderStyle", m); })
        (act border_thickness { let (v, m) = sides(s, number); w.border_thickness(v); d.put("BorderThickness", m); })
        (act padding { let (v, m) = sides(s, number); w.padding(v); d.put("Padding", m); })
        (fixed color "Color" 3)
        (num space_before "SpaceBefore")
        (num space_after "SpaceAfter")
        (num start_indent "StartIndent")
        (num end_indent "EndIndent")
        (num text_indent "TextIndent")
        (en text_align "TextAlign" [
            TextAlign::Start => "Start", TextAlign::Center => "Center", TextAlign::End => "End",
            TextAlign::Justify => "Justify",
        ])
        (num width "Width")
        (num height "Height")
        (rect bbox "BBox")
        (en block_align "BlockAlign" [
            BlockAlign::Before => "Before", BlockAlign::Middle => "Middle", BlockAlign::After => "After",
            BlockAlign::Justify => "Justify",
        ])
        (en inline_align "InlineAlign" [
            InlineAlign::Start => "Start", InlineAlign::Center => "Center", InlineAlign::End => "End",
        ])
        (act table_border_style { let (v, m) = sides(s, border_style); w.table_border_style(v); d.put("TBorderStyle", m); })
        (act table_padding { let (v, m) = sides(s, number); w.table_padding(v); d.put("TPadding", m); })
        (int column_count "ColumnCount")
        (nestval column_widths "ColumnWidths" track_sizes)
        (nestval column_gap "ColumnGap" track_sizes)
        (act line_height {
            let x = s.num();
            let (v, m) = match s.below(3) {
                0 => (LineHeight::Normal, name("Normal")),
                1 => (LineHeight::Auto, name("Auto")),
                _ => (LineHeight::Custom(x), M::Num(x)),
            };
            w.line_height(v);
            d.put("LineHeight", m);
        })
        (num baseline_shift "BaselineShift")
        (en text_position "TextPosition" [
            LayoutTextPosition::Normal => "Normal", LayoutTextPosition::Superscript => "Sup",
            LayoutTextPosition::Subscript => "Sub",
        ])
        (en text_decoration_type "TextDecorationType" [
            TextDecorationType::None => "None", TextDecorationType::Underline => "Underline",
            TextDecorationType::Overline => "Overline", TextDecorationType::LineThrough => "LineThrough",
        ])
        (fixed text_decoration_color "TextDecorationColor" 3)
        (num text_decoration_thickness "TextDecorationThickness")
        (act glyph_orientation_vertical {
            let x = s.int();
            let (v, m) = match s.below(2) {
                0 => (GlyphOrientationVertical::Auto, name("Auto")),
                _ => (GlyphOrientationVertical::Angle(x), M::Int(x as i64)),
            };
            w.glyph_orientation_vertical(v);
            d.put("GlyphOrientationVertical", m);
        })
        (en ruby_align "RubyAlign" [
            RubyAlign::Start => "Start", RubyAlign::Center => "Center", RubyAlign::End => "End",
            RubyAlign::Justify => "Justify", RubyAlign::Distribute => "Distribute",
        ])
        (en ruby_position "RubyPosition" [
            RubyPosition::Before => "Before", RubyPosition::After => "After",
            RubyPosition::Warichu => "Warichu", RubyPosition::Inline => "Inline",
        ])
        (raw)
    );
    d
}

fn list_attributes(s: &mut Src, w: &mut ListAttributes<'_>, out: &mut D) {
    let mut d = D::new().with("O", name("List"));
    ops!(s, w, d;
        (en list_numbering "ListNumbering" [
            ListNumbering::None => "None", ListNumbering::Unordered => "Unordered",
            ListNumbering::Ordered => "Ordered", ListNumbering::Description => "Description",
            ListNumbering::Disc => "Disc", ListNumbering::Circle => "Circle",
            ListNumbering::Square => "Square", ListNumbering::Decimal => "Decimal",
            ListNumbering::LowerRoman => "LowerRoman", ListNumbering::UpperRoman => "UpperRoman",
            ListNumbering::LowerAlpha => "LowerAlpha", ListNumbering::UpperAlpha => "UpperAlpha",
        ])
        (boolean continued_list "ContinuedList")
        (string continued_from "ContinuedFrom")
        (raw)
    );
    out.0.extend(d.0);
}

fn field_attributes(s: &mut Src, w: &mut FieldAttributes<'_>, out: &mut D) {
    let mut d = D::new().with("O", name("PrintField"));
    ops!(s, w, d;
        (en role "Role" [
            FieldRole::Button => "pb", FieldRole::CheckBox => "cb", FieldRole::RadioButton => "rb",
            FieldRole::TextField => "tv", FieldRole::ListBox => "lb",
        ])
        (act checked {
            let (v, n) = *s.pick(&[(FieldState::Unchecked, "off"), (FieldState::Checked, "on"), (FieldState::Neutral, "neutral")]);
            let new = s.coin();
            w.checked(v, new);
            d.put(if new { "Checked" } else { "checked" }, name(n));
        })
        (text description "Desc")
        (raw)
    );
    out.0.extend(d.0);
}

fn table_attributes(s: &mut Src, w: &mut TableAttributes<'_>, out: &mut D) {
    let mut d = D::new().with("O", name("Table"));
    ops!(s, w, d;
        (int row_span "RowSpan")
        (int col_span "ColSpan")
        (act headers {
            let n = s.len(50);
            let v: Vec<Vec<u8>> = (0..n).map(|_| s.bytes(40)).collect();
            w.headers().items(lz(v.iter().map(|b| Str(b))));
            d.put("Headers", M::Arr(v.into_iter().map(M::Str).collect()));
        })
        (en scope "Scope" [
            TableHeaderScope::Row => "Row", TableHeaderScope::Column => "Column", TableHeaderScope::Both => "Both",
        ])
        (text summary "Summary")
        (text short "Short")
        (raw)
    );
    out.0.extend(d.0);
}

fn artifact_attributes(s: &mut Src, w: &mut ArtifactAttributes<'_>, out: &mut D) {
    let mut d = D::new().with("O", name("Artifact"));
    let custom = s.name_bytes();
    ops!(s, w, d;
        (en artifact_type "Type" [
            ArtifactType::Pagination => "Pagination", ArtifactType::Layout => "Layout",
            ArtifactType::Page => "Page", ArtifactType::Background => "Background",
            ArtifactType::Inline => "Inline",
        ])
        (rect bbox "BBox")
        (en subtype "Subtype" [
            ArtifactSubtype::Header => "Header", ArtifactSubtype::Footer => "Footer",
            ArtifactSubtype::Watermark => "Watermark", ArtifactSubtype::PageNumber => "PageNum",
            ArtifactSubtype::Bates => "Bates", ArtifactSubtype::LineNumber => "LineNum",
            ArtifactSubtype::Redaction => "Redaction",
        ])
        (act custom_subtype {
            w.subtype(ArtifactSubtype::Custom(Name(&custom)));
            d.put("Subtype", M::Name(custom.clone()));
        })
        (raw)
    );
    out.0.extend(d.0);
}

fn note_attributes(s: &mut Src, w: &mut FENoteAttributes<'_>, out: &mut D) {
    let mut d = D::new().with("O", name("FENote"));
    ops!(s, w, d;
        (en note_type "NoteType" [
            NoteType::Footnote => "Footnote", NoteType::Endnote => "Endnote", NoteType::None => "None",
        ])
        (raw)
    );
    out.0.extend(d.0);
}
