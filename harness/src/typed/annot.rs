//! Annotations, actions, media, transitions.

use super::*;

pub fn annotation(s: &mut Src, w: &mut Annotation<'_>) -> M {
    let mut d = D::ty("Annot");
    annotation_ops(s, w, &mut d);
    d.m()
}

/// Only the entries added.
pub fn annotation_ops(s: &mut Src, w: &mut Annotation<'_>, out: &mut D) {
    use AnnotationIcon as I;
    use AnnotationType as T;
    let mut d = D::new();
    let custom = s.name_bytes();
    ops!(s, w, d;
        (en subtype "Subtype" [
            T::Text => "Text", T::Link => "Link", T::Line => "Line", T::Square => "Square",
            T::Circle => "Circle", T::Highlight => "Highlight", T::Underline => "Underline",
            T::Squiggly => "Squiggly", T::StrikeOut => "StrikeOut", T::FileAttachment => "FileAttachment",
            T::Widget => "Widget", T::Screen => "Screen",
        ])
        (rect rect "Rect")
        (text contents "Contents")
        (rf page "P")
        (text name "NM")
        (date modified "M")
        (flags flags "F" AnnotationFlags [
            INVISIBLE => 1, HIDDEN => 2, PRINT => 3, NO_ZOOM => 4, NO_ROTATE => 5, NO_VIEW => 6,
            READ_ONLY => 7, LOCKED => 8, TOGGLE_NO_VIEW => 9, LOCKED_CONTENTS => 10,
        ])
        (nest appearance "AP" appearance)
        (name appearance_state "AS")
        (act border {
            let v: [f32; 3] = s.arr();
            let dash = if s.coin() { Some(s.nums(40)) } else { None };
            w.border(v[0], v[1], v[2], dash.as_deref());
            let mut m = v.map(M::Num).to_vec();
            if let Some(x) = dash {
                m.push(nums_m(&x));
            }
            d.put("Border", M::Arr(m));
        })
        (nest border_style "BS" border_style)
        (empty color_transparent "C")
        (spread1 color_gray "C")
        (spread3 color_rgb "C")
        (spread4 color_cmyk "C")
        (int struct_parent "StructParent")
        (nest action "A" action)
        (nest additional_actions "AA" additional_actions)
        (en highlight "H" [
            HighlightEffect::None => "N", HighlightEffect::Invert => "I", HighlightEffect::Outline => "O",
            HighlightEffect::Push => "P",
        ])
        (text author "T")
        (text subject "Subj")
        (nums quad_points "QuadPoints")
        (spread4 line_to "L")
        (nest file_spec "FS" file_spec)
        (en icon "Name" [
            I::Comment => "Comment", I::Key => "Key", I::Note => "Note", I::Help => "Help",
            I::NewParagraph => "NewParagraph", I::Paragraph => "Paragraph", I::Insert => "Insert",
            I::Graph => "Graph", I::PushPin => "PushPin", I::Paperclip => "Paperclip", I::Tag => "Tag",
        ])
        (act custom_icon {
            w.icon(I::Custom(Name(&custom)));
            d.put("Name", M::Name(custom.clone()));
        })
        (nest appearance_characteristics "MK" appearance_characteristics)
        (rf parent "Parent")
        (nestarr associated_files "AF" file_spec)
        (raw)
    );
    out.0.extend(d.0);
}

pub fn appearance_characteristics(s: &mut Src, w: &mut AppearanceCharacteristics<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (int rotate "R")
        (empty border_color_transparent "BC")
        (spread1 border_color_gray "BC")
        (spread3 border_color_rgb "BC")
        (act border_color_cymk {
            // The parameters are named c, y, m, k; the array holds C, M, Y, K.
            let v: [f32; 4] = s.arr();
            w.border_color_cymk(v[0], v[1], v[2], v[3]);
            d.put("BC", nums_m(&[v[0], v[2], v[1], v[3]]));
        })
        (empty background_color_transparent "BG")
        (spread1 background_color_gray "BG")
        (spread3 background_color_rgb "BG")
        (act background_color_cymk {
            let v: [f32; 4] = s.arr();
            w.background_color_cymk(v[0], v[1], v[2], v[3]);
            d.put("BG", nums_m(&[v[0], v[2], v[1], v[3]]));
        })
        (text normal_caption "CA")
        (text rollover_caption "RC")
        (text alternate_caption "AC")
        (rf normal_icon "I")
        (rf rollover_icon "RI")
        (rf alternate_icon "IX")
        (nest icon_fit "IF" icon_fit)
        (eni text_position "TP" [
            TextPosition::CaptionOnly => 0, TextPosition::IconOnly => 1, TextPosition::Below => 2,
            TextPosition::Above => 3, TextPosition::Right => 4, TextPosition::Left => 5,
            TextPosition::Overlaid => 6,
        ])
        (raw)
    );
    d.m()
}

pub fn icon_fit(s: &mut Src, w: &mut IconFit<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (en scale "SW" [
            IconScale::Always => "A", IconScale::Bigger => "B", IconScale::Smaller => "S", IconScale::Never => "N",
        ])
        (en scale_type "S" [IconScaleType::Anamorphic => "A", IconScaleType::Proportional => "P"])
        (spread2 leftover_space "A")
        (boolean fit_bounds "FB")
        (raw)
    );
    d.m()
}

pub fn appearance(s: &mut Src, w: &mut Appearance<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (nestval normal "N" appearance_entry)
        (nestval rollover "R" appearance_entry)
        (nestval alternate "D" appearance_entry)
        (raw)
    );
    d.m()
}

fn appearance_entry(s: &mut Src, w: AppearanceEntry<'_>) -> M {
    if s.coin() {
        let r = s.rf();
        w.stream(r);
        ref_m(r)
    } else {
        let n = s.len(40);
        let mut e = D::new();
        let mut x = w.streams();
        for _ in 0..n {
            let (k, r) = (s.name_bytes(), s.rf());
            x.pair(Name(&k), r);
            e.putb(&k, ref_m(r));
        }
        e.m()
    }
}

pub fn border_style(s: &mut Src, w: &mut BorderStyle<'_>) -> M {
    let mut d = D::ty("Border");
    ops!(s, w, d;
        (num width "W")
        (en style "S" [
            BorderType::Solid => "S", BorderType::Dashed => "D", BorderType::Beveled => "B",
            BorderType::Inset => "I", BorderType::Underline => "U",
        ])
        (nums dashes "D")
        (raw)
    );
    d.m()
}

pub fn action(s: &mut Src, w: &mut Action<'_>) -> M {
    let mut d = D::ty("Action");
    ops!(s, w, d;
        (en action_type "S" [
            ActionType::GoTo => "GoTo", ActionType::RemoteGoTo => "GoToR", ActionType::Launch => "Launch",
            ActionType::Uri => "URI", ActionType::SubmitForm => "SubmitForm", ActionType::ResetForm => "ResetForm",
            ActionType::ImportData => "ImportData", ActionType::JavaScript => "JavaScript",
            ActionType::Rendition => "Rendition",
        ])
        (nestval destination "D" destination)
        (name destination_named "D")
        (nest file_spec "F" file_spec)
        (boolean new_window "NewWindow")
        (string uri "URI")
        (boolean is_map "IsMap")
        (tstr js_string "JS")
        (rf js_stream "JS")
        (nest fields "Fields" fields)
        (flags form_flags "Flags" FormActionFlags [
            INCLUDE_EXCLUDE => 1, INCLUDE_NO_VALUE_FIELDS => 2, EXPORT_FORMAT => 3, GET_METHOD => 4,
            SUBMIT_COORDINATES => 5, XFDF => 6, INCLUDE_APPEND_SAVES => 7, INCLUDE_ANNOTATIONS => 8,
            SUBMIT_PDF => 9, CANONICAL_FORMAT => 10, EXCLUDE_NON_USER_ANNOTS => 11, EXCLUDE_F_KEY => 12,
            EMBED_FORM => 14,
        ])
        (eni operation "OP" [
            RenditionOperation::Play => 0, RenditionOperation::Stop => 1, RenditionOperation::Pause => 2,
            RenditionOperation::Resume => 3, RenditionOperation::PlayOrResume => 4,
        ])
        (rf annotation "AN")
        (nest rendition "R" rendition)
        (raw)
    );
    d.m()
}

pub fn fields(s: &mut Src, w: &mut Fields<'_>) -> M {
    let n = s.count(0, 5);
    let mut v = Vec::new();
    for _ in 0..n {
        match s.below(5) {
            0 => {
                s.hit("field id");
                let r = s.rf();
                w.id(r);
                v.push(ref_m(r));
            }
            1 => {
                s.hit("field ids");
                let r = s.refs(300);
                w.ids(lz(r.iter().copied()));
                v.extend(r.iter().map(|r| ref_m(*r)));
            }
            2 => {
                s.hit("field name");
                let t = s.text(60);
                w.name(TextStr(&t));
                v.push(M::Text(t));
            }
            3 => {
                s.hit("field names");
                let n = s.len(40);
                let t: Vec<String> = (0..n).map(|_| s.text(60)).collect();
                w.names(lz(t.iter().map(|t| TextStr(t))));
                v.extend(t.into_iter().map(M::Text));
            }
            _ => {
                let i = s.int();
                w.item(i);
                v.push(M::Int(i as i64));
            }
        }
    }
    M::Arr(v)
}

pub fn additional_actions(s: &mut Src, w: &mut AdditionalActions<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (nest annot_curser_enter "E" action)
        (nest annot_cursor_exit "X" action)
        (nest annot_mouse_press "D" action)
        (nest annot_mouse_release "U" action)
        (nest annot_page_open "PO" action)
        (nest annot_page_close "PC" action)
        (nest annot_page_visible "PV" action)
        (nest annot_page_invisible "PI" action)
        (nest widget_focus "Fo" action)
        (nest widget_focus_loss "Bl" action)
        (nest page_open "O" action)
        (nest page_close "C" action)
        (nest form_calculate_partial "K" action)
        (nest form_format "F" action)
        (nest form_validate "V" action)
        (nest form_calculate "C" action)
        (nest cat_before_close "WC" action)
        (nest cat_before_save "WS" action)
        (nest cat_after_save "DS" action)
        (nest cat_before_print "WP" action)
        (nest cat_after_print "DP" action)
        (raw)
    );
    d.m()
}

pub fn rendition(s: &mut Src, w: &mut Rendition<'_>) -> M {
    let mut d = D::ty("Rendition");
    ops!(s, w, d;
        (en subtype "S" [RenditionType::Media => "MR", RenditionType::Selector => "SR"])
        (text name "N")
        (nest media_clip "C" media_clip)
        (nest media_play_params "P" media_play_params)
        (raw)
    );
    d.m()
}

pub fn media_clip(s: &mut Src, w: &mut MediaClip<'_>) -> M {
    let mut d = D::ty("MediaClip");
    ops!(s, w, d;
        (en subtype "S" [MediaClipType::Data => "MCD", MediaClipType::Section => "MCS"])
        (text name "N")
        (nest data "D" file_spec)
        (string data_type "CT")
        (nest permissions "P" media_permissions)
        (tstrs alt_texts "Alt")
        (raw)
    );
    d.m()
}

pub fn media_play_params(s: &mut Src, w: &mut MediaPlayParams<'_>) -> M {
    let mut d = D::ty("MediaPlayParams");
    ops!(s, w, d;
        (act controls {
            let v = s.coin();
            w.controls(v);
            d.put("BE", D::new().with("C", M::Bool(v)).m());
        })
        (raw)
    );
    d.m()
}

pub fn media_permissions(s: &mut Src, w: &mut MediaPermissions<'_>) -> M {
    let mut d = D::ty("MediaPermissions");
    ops!(s, w, d;
        (act temp_file {
            let (v, n) = *s.pick(&[
                (TempFileType::Never, "TEMPNEVER"), (TempFileType::Extract, "TEMPEXTRACT"),
                (TempFileType::Access, "TEMPACCESS"), (TempFileType::Always, "TEMPALWAYS"),
            ]);
            w.temp_file(v);
            d.put("TF", M::Str(n.as_bytes().to_vec()));
        })
        (raw)
    );
    d.m()
}

pub fn transition(s: &mut Src, w: &mut Transition<'_>) -> M {
    use TransitionStyle as T;
    let mut d = D::ty("Trans");
    ops!(s, w, d;
        (en style "S" [
            T::Split => "Split", T::Blinds => "Blinds", T::Box => "Box", T::Wipe => "Wipe",
            T::Dissolve => "Dissolve", T::Glitter => "Glitter", T::R => "R", T::Fly => "Fly",
            T::Push => "Push", T::Cover => "Cover", T::Uncover => "Uncover", T::Fade => "Fade",
        ])
        (num duration "D")
        (act dimension { let v = s.coin(); w.dimension(v); d.put("Dm", name(if v { "V" } else { "H" })); })
        (act direction { let v = s.coin(); w.direction(v); d.put("M", name(if v { "O" } else { "I" })); })
        (act angle {
            use TransitionAngle::*;
            let (v, a) = *s.pick(&[
                (LeftToRight, 0), (BottomToTop, 90), (RightToLeft, 180), (TopToBottom, 270),
                (TopLeftToBottomRight, 315), (None, -1),
            ]);
            w.angle(v);
            d.put("Di", if a < 0 { name("None") } else { M::Int(a) });
        })
        (num scale "SS")
        (num opaque "B")
        (raw)
    );
    d.m()
}
