//! Catalog, pages, outlines, destinations, trees, info, structure tree.

use super::*;

pub fn catalog(s: &mut Src, w: &mut Catalog<'_>) -> M {
    let mut d = D::ty("Catalog");
    ops!(s, w, d;
        (rf pages "Pages")
        (en page_layout "PageLayout" [
            PageLayout::SinglePage => "SinglePage", PageLayout::OneColumn => "OneColumn",
            PageLayout::TwoColumnLeft => "TwoColumnLeft", PageLayout::TwoColumnRight => "TwoColumnRight",
            PageLayout::TwoPageLeft => "TwoPageLeft", PageLayout::TwoPageRight => "TwoPageRight",
        ])
        (nest page_labels "PageLabels" number_tree)
        (en page_mode "PageMode" [
            PageMode::UseNone => "UseNone", PageMode::UseOutlines => "UseOutlines",
            PageMode::UseThumbs => "UseThumbs", PageMode::FullScreen => "FullScreen",
            PageMode::UseOC => "UseOC", PageMode::UseAttachments => "UseAttachments",
        ])
        (nest viewer_preferences "ViewerPreferences" viewer_preferences)
        (nest names "Names" names)
        (rf destinations "Dests")
        (rf outlines "Outlines")
        (nest struct_tree_root "StructTreeRoot" struct_tree_root)
        (nest mark_info "MarkInfo" mark_info)
        (tstr lang "Lang")
        (act version {
            let (a, b) = (s.below(256) as u8, s.below(256) as u8);
            w.version(a, b);
            d.put("Version", name(&format!("{a}.{b}")));
        })
        (nest additional_actions "AA" additional_actions)
        (nest form "AcroForm" form)
        (rf metadata "Metadata")
        (act extensions {
            let n = s.count(0, 3);
            let mut e = D::new();
            {
                let mut x = w.extensions();
                for _ in 0..n {
                    let k = s.name_bytes();
                    let mut c = x.insert(Name(&k));
                    let m = s.nested(|s| developer_extension(s, &mut c));
                    e.putb(&k, m);
                }
            }
            d.put("Extensions", e.m());
        })
        (nest separation_info "SeparationInfo" separation_info)
        (nestarr output_intents "OutputIntents" output_intent)
        (nestarr associated_files "AF" file_spec)
        (raw)
    );
    d.m()
}

pub fn developer_extension(s: &mut Src, w: &mut DeveloperExtension<'_>) -> M {
    let mut d = D::ty("DeveloperExtensions");
    ops!(s, w, d;
        (act base_version {
            let (a, b) = (s.below(256) as u8, s.below(256) as u8);
            w.base_version(a, b);
            d.put("BaseVersion", name(&format!("{a}.{b}")));
        })
        (int extension_level "ExtensionLevel")
        (raw)
    );
    d.m()
}

pub fn viewer_preferences(s: &mut Src, w: &mut ViewerPreferences<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (boolean hide_toolbar "HideToolbar")
        (boolean hide_menubar "HideMenubar")
        (boolean fit_window "FitWindow")
        (boolean center_window "CenterWindow")
        (boolean display_doc_title "DisplayDocTitle")
        (en non_full_screen_page_mode "NonFullScreenPageMode" [
            PageMode::UseNone => "UseNone", PageMode::UseOutlines => "UseOutlines",
            PageMode::UseThumbs => "UseThumbs", PageMode::UseOC => "UseOC",
            PageMode::UseAttachments => "UseAttachments",
        ])
        (en direction "Direction" [Direction::L2R => "L2R", Direction::R2L => "R2L"])
        (raw)
    );
    d.m()
}

/// A generated value of a primitive type a tree can hold.
pub trait TreeValue: Primitive + Sized {
    fn gen(s: &mut Src) -> (Self, M);
}
impl TreeValue for Ref {
    fn gen(s: &mut Src) -> (Self, M) {
        let r = s.rf();
        (r, ref_m(r))
    }
}
impl TreeValue for i32 {
    fn gen(s: &mut Src) -> (Self, M) {
        let r = s.int();
        (r, M::Int(r as i64))
    }
}
impl TreeValue for f32 {
    fn gen(s: &mut Src) -> (Self, M) {
        let r = s.num();
        (r, M::Num(r))
    }
}
impl TreeValue for bool {
    fn gen(s: &mut Src) -> (Self, M) {
        let r = s.coin();
        (r, M::Bool(r))
    }
}
impl TreeValue for Rect {
    fn gen(s: &mut Src) -> (Self, M) {
        let r = s.rect();
        (r, rect_m(r))
    }
}
impl TreeValue for Null {
    fn gen(_: &mut Src) -> (Self, M) {
        (Null, M::Null)
    }
}

pub fn name_tree<T: TreeValue>(s: &mut Src, w: &mut NameTree<'_, T>) -> M {
    let mut d = D::new();
    let n = s.count(0, 4);
    for _ in 0..n {
        match s.below(3) {
            0 => {
                s.hit("name tree kids");
                let v = s.refs(300);
                fill(s, w.kids(), &v);
                d.put("Kids", refs_m(&v));
            }
            1 => {
                s.hit("name tree entries");
                let n = s.len(200);
                let mut v = Vec::new();
                {
                    let mut e = w.names();
                    for _ in 0..n {
                        let k = s.bytes(60);
                        let (t, m) = T::gen(s);
                        e.insert(Str(&k), t);
                        v.push(M::Str(k));
                        v.push(m);
                    }
                }
                d.put("Names", M::Arr(v));
            }
            _ => {
                s.hit("name tree limits");
                let (a, b) = (s.name_bytes(), s.name_bytes());
                w.limits(Name(&a), Name(&b));
                d.put("Limits", M::Arr(vec![M::Name(a), M::Name(b)]));
            }
        }
    }
    d.m()
}

pub fn number_tree<T: TreeValue>(s: &mut Src, w: &mut NumberTree<'_, T>) -> M {
    let mut d = D::new();
    let n = s.count(0, 4);
    for _ in 0..n {
        match s.below(3) {
            0 => {
                s.hit("number tree kids");
                let v = s.refs(300);
                fill(s, w.kids(), &v);
                d.put("Kids", refs_m(&v));
            }
            1 => {
                s.hit("number tree entries");
                let n = s.len(200);
                let mut v = Vec::new();
                {
                    let mut e = w.nums();
                    for _ in 0..n {
                        let k = s.int();
                        let (t, m) = T::gen(s);
                        e.insert(k, t);
                        v.push(M::Int(k as i64));
                        v.push(m);
                    }
                }
                d.put("Nums", M::Arr(v));
            }
            _ => {
                s.hit("number tree limits");
                let (a, b) = (s.int(), s.int());
                w.limits(a, b);
                d.put("Limits", ints_m(&[a, b]));
            }
        }
    }
    d.m()
}

pub fn names(s: &mut Src, w: &mut Names<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (nest destinations "Dests" name_tree)
        (nest appearances "AP" name_tree)
        (nest javascript "JavaScript" name_tree)
        (nest pages "Pages" name_tree)
        (nest templates "Templates" name_tree)
        (nest capture_ids "IDS" name_tree)
        (nest capture_urls "URLS" name_tree)
        (nest embedded_files "EmbeddedFiles" name_tree)
        (nest alternate_presentations "AlternatePresentations" name_tree)
        (nest renditions "Renditions" name_tree)
        (raw)
    );
    d.m()
}

pub fn mark_info(s: &mut Src, w: &mut MarkInfo<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (boolean marked "Marked")
        (boolean user_properties "UserProperties")
        (boolean suspects "Suspects")
        (raw)
    );
    d.m()
}

pub fn page_label(s: &mut Src, w: &mut PageLabel<'_>) -> M {
    let mut d = D::ty("PageLabel");
    ops!(s, w, d;
        (en style "S" [
            NumberingStyle::Arabic => "D", NumberingStyle::LowerRoman => "r",
            NumberingStyle::UpperRoman => "R", NumberingStyle::LowerAlpha => "a",
            NumberingStyle::UpperAlpha => "A",
        ])
        (text prefix "P")
        (int offset "St")
        (raw)
    );
    d.m()
}

pub fn document_info(s: &mut Src, w: &mut DocumentInfo<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (text title "Title")
        (text author "Author")
        (text subject "Subject")
        (text keywords "Keywords")
        (text creator "Creator")
        (text producer "Producer")
        (date creation_date "CreationDate")
        (date modified_date "ModDate")
        (en trapped "Trapped" [
            TrappingStatus::Trapped => "True", TrappingStatus::NotTrapped => "False",
            TrappingStatus::Unknown => "Unknown",
        ])
        (raw)
    );
    d.m()
}

pub fn pages(s: &mut Src, w: &mut Pages<'_>) -> M {
    let mut d = D::ty("Pages");
    ops!(s, w, d;
        (rf parent "Parent")
        (refs kids "Kids")
        (int count "Count")
        (rect media_box "MediaBox")
        (nest resources "Resources" resources)
        (raw)
    );
    d.m()
}

pub fn page(s: &mut Src, w: &mut Page<'_>) -> M {
    let mut d = D::ty("Page");
    ops!(s, w, d;
        (rf parent "Parent")
        (date last_modified "LastModified")
        (rect media_box "MediaBox")
        (rect crop_box "CropBox")
        (rect bleed_box "BleedBox")
        (rect trim_box "TrimBox")
        (rect art_box "ArtBox")
        (nest resources "Resources" resources)
        (rf contents "Contents")
        (refs contents_array "Contents")
        (int rotate "Rotate")
        (nest group "Group" group)
        (rf thumbnail "Thumb")
        (num duration "Dur")
        (nest transition "Trans" transition)
        (refs annotations "Annots")
        (int struct_parents "StructParents")
        (en tab_order "Tabs" [
            TabOrder::RowOrder => "R", TabOrder::ColumnOrder => "C", TabOrder::StructureOrder => "S",
        ])
        (num user_unit "UserUnit")
        (nest additional_actions "AA" additional_actions)
        (rf metadata "Metadata")
        (nestarr associated_files "AF" file_spec)
        (raw)
    );
    d.m()
}

pub fn outline(s: &mut Src, w: &mut Outline<'_>) -> M {
    let mut d = D::ty("Outlines");
    ops!(s, w, d;
        (rf first "First")
        (rf last "Last")
        (act count {
            let v = s.int().saturating_abs();
            w.count(v);
            d.put("Count", M::Int(v as i64));
        })
        (raw)
    );
    d.m()
}

pub fn outline_item(s: &mut Src, w: &mut OutlineItem<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (text title "Title")
        (rf parent "Parent")
        (rf prev "Prev")
        (rf next "Next")
        (rf first "First")
        (rf last "Last")
        (int count "Count")
        (nestval dest "Dest" destination)
        (name dest_name "Dest")
        (spread3 color_rgb "C")
        (flags flags "F" OutlineItemFlags [ITALIC => 1, BOLD => 2])
        (raw)
    );
    d.m()
}

pub fn destination(s: &mut Src, w: Destination<'_>) -> M {
    let mut v = Vec::new();
    let mut w = w;
    if s.one_in(8) {
        // A page number of a remote document, through the array underneath.
        let p = s.int();
        w.item(p);
        v.push(M::Int(p as i64));
    } else {
        let p = s.rf();
        w = w.page(p);
        v.push(ref_m(p));
    }
    let n = |s: &mut Src| s.num();
    match s.below(10) {
        0 => {
            s.hit("dest none");
        }
        1 => {
            s.hit("dest xyz");
            let (a, b) = (n(s), n(s));
            let z = if s.coin() { Some(n(s)) } else { None };
            w.xyz(a, b, z);
            v.push(name("XYZ"));
            v.push(M::Num(a));
            v.push(M::Num(b));
            v.push(match z {
                Some(z) => M::Num(z),
                // Zero and null both leave the zoom as it is.
                None => M::OneOf(vec![M::Num(0.0), M::Null]),
            });
        }
        2 => {
            s.hit("dest fit");
            w.fit();
            v.push(name("Fit"));
        }
        3 => {
            s.hit("dest fit h");
            let a = n(s);
            w.fit_horizontal(a);
            v.extend([name("FitH"), M::Num(a)]);
        }
        4 => {
            s.hit("dest fit v");
            let a = n(s);
            w.fit_vertical(a);
            v.extend([name("FitV"), M::Num(a)]);
        }
        5 | 6 => {
            s.hit("dest fit r");
            let r = s.rect();
            w.fit_rect(r);
            v.extend([name("FitR"), M::Num(r.x1), M::Num(r.y1), M::Num(r.x2), M::Num(r.y2)]);
        }
        7 => {
            s.hit("dest fit b");
            w.fit_bounding_box();
            v.push(name("FitB"));
        }
        8 => {
            s.hit("dest fit bh");
            let a = n(s);
            w.fit_bounding_box_horizontal(a);
            v.extend([name("FitBH"), M::Num(a)]);
        }
        _ => {
            s.hit("dest fit bv");
            let a = n(s);
            w.fit_bounding_box_vertical(a);
            v.extend([name("FitBV"), M::Num(a)]);
        }
    }
    M::Arr(v)
}

pub fn metadata(s: &mut Src, w: &mut Metadata<'_>) -> M {
    let mut d = D::ty("Metadata").with("Subtype", name("XML"));
    let _ = w;
    stream_ops(s, w, &mut d);
    d.m()
}

// ------------------------------------------------------- structure tree

pub fn struct_tree_root(s: &mut Src, w: &mut StructTreeRoot<'_>) -> M {
    let mut d = D::ty("StructTreeRoot");
    ops!(s, w, d;
        (rf child "K")
        (act children {
            let v = s.refs(300);
            fill(s, w.children(), &v);
            d.put("K", refs_m(&v));
        })
        (nest id_tree "IDTree" name_tree)
        (nest parent_tree "ParentTree" number_tree)
        (int parent_tree_next_key "ParentTreeNextKey")
        (nest role_map "RoleMap" role_map)
        (nest class_map "ClassMap" class_map)
        (act namespaces {
            let v = s.refs(300);
            fill(s, w.namespaces(), &v);
            d.put("Namespaces", refs_m(&v));
        })
        (act pronunciation_lexicon {
            let v = s.refs(300);
            fill(s, w.pronunciation_lexicon(), &v);
            d.put("PronunciationLexicon", refs_m(&v));
        })
        (nestarr associated_files "AF" file_spec)
        (raw)
    );
    d.m()
}

pub fn role_map(s: &mut Src, w: &mut RoleMap<'_>) -> M {
    let mut d = D::new();
    let n = s.count(0, 4);
    for _ in 0..n {
        let k = s.name_bytes();
        let (r, m) = role_1(s);
        w.insert(Name(&k), r);
        d.putb(&k, m);
    }
    d.m()
}

pub fn class_map(s: &mut Src, w: &mut ClassMap<'_>) -> M {
    let mut d = D::new();
    let n = s.count(0, 3);
    for _ in 0..n {
        let k = s.name_bytes();
        if s.coin() {
            let a = w.single(Name(&k));
            let m = s.nested(|s| attributes(s, a));
            d.putb(&k, m);
        } else {
            let n = s.count(0, 3);
            let mut v = Vec::new();
            {
                let mut a = w.multiple(Name(&k));
                for _ in 0..n {
                    let c = a.push();
                    v.push(s.nested(|s| attributes(s, c)));
                }
            }
            d.putb(&k, M::Arr(v));
        }
    }
    d.m()
}

pub fn role_1(s: &mut Src) -> (StructRole, M) {
    use StructRole::*;
    let (r, n) = *s.pick(&[
        (Document, "Document"), (Part, "Part"), (Art, "Art"), (Sect, "Sect"), (Div, "Div"),
        (BlockQuote, "BlockQuote"), (Caption, "Caption"), (TOC, "TOC"), (TOCI, "TOCI"),
        (Index, "Index"), (NonStruct, "NonStruct"), (Private, "Private"), (P, "P"),
        (StructuredHeading, "H"), (H1, "H1"), (H2, "H2"), (H3, "H3"), (H4, "H4"), (H5, "H5"),
        (H6, "H6"), (L, "L"), (LI, "LI"), (Lbl, "Lbl"), (LBody, "LBody"), (Table, "Table"),
        (TR, "TR"), (TH, "TH"), (TD, "TD"), (THead, "THead"), (TBody, "TBody"), (TFoot, "TFoot"),
        (Span, "Span"), (Quote, "Quote"), (Note, "Note"), (Reference, "Reference"),
        (BibEntry, "BibEntry"), (Code, "Code"), (Link, "Link"), (Annot, "Annot"), (Ruby, "Ruby"),
        (Warichu, "Warichu"), (RB, "RB"), (RT, "RT"), (RP, "RP"), (WT, "WT"), (WP, "WP"),
        (Figure, "Figure"), (Formula, "Formula"), (Form, "Form"),
    ]);
    (r, name(n))
}

pub fn role_2(s: &mut Src) -> (StructRole2, M) {
    use StructRole2::*;
    if s.below(3) == 0 {
        let n = std::num::NonZeroU16::new(1 + match s.below(3) {
            0 => s.below(8),
            1 => s.below(200),
            _ => s.below(65535),
        } as u16)
        .unwrap();
        return (Heading(n), name(&format!("H{n}")));
    }
    let (r, n) = *s.pick(&[
        (Document, "Document"), (DocumentFragment, "DocumentFragment"), (Part, "Part"),
        (Sect, "Sect"), (Div, "Div"), (Aside, "Aside"), (NonStruct, "NonStruct"), (P, "P"),
        (StructuredHeading, "H"), (Title, "Title"), (FENote, "FENote"), (Sub, "Sub"),
        (Lbl, "Lbl"), (Span, "Span"), (Em, "Em"), (Strong, "Strong"), (Link, "Link"),
        (Annot, "Annot"), (Form, "Form"), (Ruby, "Ruby"), (RB, "RB"), (RT, "RT"), (RP, "RP"),
        (Warichu, "Warichu"), (WT, "WT"), (WP, "WP"), (L, "L"), (LI, "LI"), (LBody, "LBody"),
        (Table, "Table"), (TR, "TR"), (TH, "TH"), (TD, "TD"), (THead, "THead"),
        (TBody, "TBody"), (TFoot, "TFoot"), (Caption, "Caption"), (Figure, "Figure"),
        (Formula, "Formula"), (Artifact, "Artifact"),
    ]);
    (r, name(n))
}

pub fn struct_element(s: &mut Src, w: &mut StructElement<'_>) -> M {
    let mut d = D::ty("StructElem");
    let custom = s.name_bytes();
    ops!(s, w, d;
        (act kind {
            let (r, m) = role_1(s);
            w.kind(r);
            d.put("S", m);
        })
        (act kind_2 {
            let (r, m) = role_2(s);
            let ns = s.rf();
            w.kind_2(r, ns);
            d.put("S", m);
            d.put("NS", ref_m(ns));
        })
        (name custom_kind "S")
        (rf parent "P")
        (string id "ID")
        (refs refs "Ref")
        (rf page "Pg")
        (rf child "K")
        (nest marked_content_child "K" marked_ref)
        (nest object_child "K" object_ref)
        (nest children "K" struct_children)
        (act attributes {
            let n = s.count(0, 3);
            let mut v = Vec::new();
            {
                let mut a = w.attributes();
                for _ in 0..n {
                    let c = a.push();
                    v.push(s.nested(|s| attributes(s, c)));
                }
            }
            d.put("A", M::Arr(v));
        })
        (act attribute_class {
            let n = s.len(100);
            let v: Vec<Vec<u8>> = (0..n).map(|_| s.name_bytes()).collect();
            w.attribute_class().items(lz(v.iter().map(|n| Name(n))));
            d.put("C", M::Arr(v.into_iter().map(M::Name).collect()));
        })
        (int revision "R")
        (text title "T")
        (tstr lang "Lang")
        (text alt "Alt")
        (text expanded "E")
        (text actual_text "ActualText")
        (nestarr associated_files "AF" file_spec)
        (rf namespace "NS")
        (en phonetic_alphabet "PhoneticAlphabet" [
            PhoneticAlphabet::Ipa => "ipa", PhoneticAlphabet::XSampa => "x-sampa",
            PhoneticAlphabet::Pinyin => "zh-Latn-pinyin", PhoneticAlphabet::WadeGiles => "zh-Latn-wadegile",
        ])
        (act custom_alphabet {
            w.phonetic_alphabet(PhoneticAlphabet::Custom(Name(&custom)));
            d.put("PhoneticAlphabet", M::Name(custom.clone()));
        })
        (tstr phoneme "Phoneme")
        (raw)
    );
    d.m()
}

pub fn struct_children(s: &mut Src, w: &mut StructChildren<'_>) -> M {
    let n = s.len(40);
    let mut v = Vec::new();
    for _ in 0..n {
        match s.below(5) {
            0 => {
                s.hit("child element");
                let r = s.rf();
                w.struct_element(r);
                v.push(ref_m(r));
            }
            1 => {
                s.hit("child content id");
                let i = s.int();
                w.marked_content_id(i);
                v.push(M::Int(i as i64));
            }
            2 => {
                s.hit("child content ref");
                let mut c = w.marked_content_ref();
                v.push(marked_ref(s, &mut c));
            }
            3 => {
                s.hit("child object ref");
                let mut c = w.object_ref();
                v.push(object_ref(s, &mut c));
            }
            _ => {
                let r = s.rf();
                w.item(r);
                v.push(ref_m(r));
            }
        }
    }
    M::Arr(v)
}

pub fn marked_ref(s: &mut Src, w: &mut MarkedRef<'_>) -> M {
    let mut d = D::ty("MCR");
    ops!(s, w, d;
        (rf page "Pg")
        (rf stream "Stm")
        (rf stream_owner "StmOwn")
        (int marked_content_id "MCID")
        (raw)
    );
    d.m()
}

pub fn object_ref(s: &mut Src, w: &mut ObjectRef<'_>) -> M {
    let mut d = D::ty("OBJR");
    ops!(s, w, d;
        (rf page "Pg")
        (rf object "Obj")
        (raw)
    );
    d.m()
}

pub fn namespace(s: &mut Src, mut w: Namespace<'_>) -> M {
    let mut d = D::ty("Namespace");
    {
        let w = &mut w;
        ops!(s, w, d;
            (tstr ns "NS")
            (nest schema "Schema" file_spec)
            (nest role_map_ns "RoleMapNS" namespace_role_map)
            (raw)
        );
    }
    match s.below(5) {
        0 => {
            s.hit("pdf_2_ns");
            w.pdf_2_ns();
            d.put("NS", M::Text("http://iso.org/pdf2/ssn".into()));
        }
        1 => {
            s.hit("pdf_1_7_ns");
            w.pdf_1_7_ns();
            d.put("NS", M::Text("http://iso.org/pdf/ssn".into()));
        }
        2 => {
            s.hit("mathml_3_0_ns");
            w.mathml_3_0_ns();
            d.put("NS", M::Text("http://www.w3.org/1998/Math/MathML".into()));
        }
        _ => {}
    }
    d.m()
}

pub fn namespace_role_map(s: &mut Src, w: &mut NamespaceRoleMap<'_>) -> M {
    let mut d = D::new();
    let n = s.count(0, 4);
    for _ in 0..n {
        let k = s.name_bytes();
        match s.below(3) {
            0 => {
                s.hit("to_pdf_1_7");
                let (r, m) = role_1(s);
                w.to_pdf_1_7(Name(&k), r);
                d.putb(&k, m);
            }
            1 => {
                s.hit("to_namespace");
                let (r, ns) = (s.name_bytes(), s.rf());
                w.to_namespace(Name(&k), Name(&r), ns);
                d.putb(&k, M::Arr(vec![M::Name(r), ref_m(ns)]));
            }
            _ => {
                s.hit("to_pdf_2_0");
                let (r, m) = role_2(s);
                let ns = s.rf();
                w.to_pdf_2_0(Name(&k), r, ns);
                d.putb(&k, M::Arr(vec![m, ref_m(ns)]));
            }
        }
    }
    d.m()
}
