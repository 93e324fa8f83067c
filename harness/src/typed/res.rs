//! External objects, resources, graphics state, files, filters.

use super::*;

pub fn decode_parms(s: &mut Src, w: &mut DecodeParms<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (eni predictor "Predictor" [
            Predictor::None => 1, Predictor::Tiff => 2, Predictor::PngNone => 10, Predictor::PngSub => 11,
            Predictor::PngUp => 12, Predictor::PngAverage => 13, Predictor::PngPaeth => 14,
            Predictor::PngOptimum => 15,
        ])
        (act colors { let v = s.int().saturating_abs().max(1); w.colors(v); d.put("Colors", M::Int(v as i64)); })
        (act bits_per_component {
            let v = *s.pick(&[1, 2, 4, 8, 16]);
            w.bits_per_component(v);
            d.put("BitsPerComponent", M::Int(v as i64));
        })
        (int columns "Columns")
        (act early_change { let v = s.coin(); w.early_change(v); d.put("EarlyChange", M::Int(v as i64)); })
        (int k "K")
        (boolean end_of_line "EndOfLine")
        (boolean encoded_byte_align "EncodedByteAlign")
        (int rows "Rows")
        (boolean end_of_block "EndOfBlock")
        (boolean black_is_1 "BlackIs1")
        (int damaged_rows_before_error "DamagedRowsBeforeError")
        (rf jbig2_globals "JBIG2Globals")
        (act color_transform { let v = s.coin(); w.color_transform(v); d.put("ColorTransform", M::Int(v as i64)); })
        (konst crypt_type "Type" "CryptFilterDecodeParms")
        (name name "Name")
        (raw)
    );
    d.m()
}

pub fn stream(s: &mut Src, w: &mut Stream<'_>) -> M {
    let mut d = D::new();
    stream_ops(s, w, &mut d);
    d.m()
}

/// The entries every stream writer offers. `Length` is left to the caller.
pub fn stream_ops(s: &mut Src, w: &mut Stream<'_>, out: &mut D) {
    use Filter::*;
    let mut d = D::new();
    ops!(s, w, d;
        (en filter "Filter" [
            AsciiHexDecode => "ASCIIHexDecode", Ascii85Decode => "ASCII85Decode", LzwDecode => "LZWDecode",
            FlateDecode => "FlateDecode", RunLengthDecode => "RunLengthDecode",
            CcittFaxDecode => "CCITTFaxDecode", Jbig2Decode => "JBIG2Decode", DctDecode => "DCTDecode",
            JpxDecode => "JPXDecode", Crypt => "Crypt",
        ])
        (nest decode_parms "DecodeParms" decode_parms)
        (raw)
    );
    out.0.extend(d.0);
}

pub fn image(s: &mut Src, w: &mut ImageXObject<'_>) -> M {
    let mut d = D::ty("XObject").with("Subtype", name("Image"));
    ops!(s, w, d;
        (int width "Width")
        (int height "Height")
        (nestval color_space "ColorSpace" color_space)
        (name color_space_name "ColorSpace")
        (int bits_per_component "BitsPerComponent")
        (en intent "Intent" [
            RenderingIntent::AbsoluteColorimetric => "AbsoluteColorimetric",
            RenderingIntent::RelativeColorimetric => "RelativeColorimetric",
            RenderingIntent::Saturation => "Saturation", RenderingIntent::Perceptual => "Perceptual",
        ])
        (boolean image_mask "ImageMask")
        (ints color_mask "Mask")
        (rf stencil_mask "Mask")
        (nums decode "Decode")
        (boolean interpolate "Interpolate")
        (refs alternates "Alternates")
        (rf s_mask "SMask")
        (eni s_mask_in_data "SMaskInData" [
            SMaskInData::Ignore => 0, SMaskInData::Use => 1, SMaskInData::Preblended => 2,
        ])
        (int struct_parent "StructParent")
        (nums matte "Matte")
        (rf metadata "Metadata")
        (nestarr associated_files "AF" file_spec)
        (raw)
    );
    stream_ops(s, w, &mut d);
    d.m()
}

pub fn form_xobject(s: &mut Src, w: &mut FormXObject<'_>) -> M {
    let mut d = D::ty("XObject").with("Subtype", name("Form"));
    ops!(s, w, d;
        (rect bbox "BBox")
        (fixed matrix "Matrix" 6)
        (nest resources "Resources" resources)
        (nest group "Group" group)
        (int struct_parent "StructParent")
        (int struct_parents "StructParents")
        (nest reference "Ref" reference)
        (rf metadata "Metadata")
        (date last_modified "LastModified")
        (nestarr associated_files "AF" file_spec)
        (raw)
    );
    stream_ops(s, w, &mut d);
    d.m()
}

pub fn group(s: &mut Src, w: &mut Group<'_>) -> M {
    let mut d = D::ty("Group");
    ops!(s, w, d;
        (konst transparency "S" "Transparency")
        (nestval color_space "CS" color_space)
        (boolean isolated "I")
        (boolean knockout "K")
        (raw)
    );
    d.m()
}

pub fn reference(s: &mut Src, w: &mut Reference<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (nest file_spec "F" file_spec)
        (int page_number "Page")
        (text page_label "Page")
        (act id {
            let (a, b) = (s.bytes(40), s.bytes(40));
            w.id([Str(&a), Str(&b)]);
            d.put("ID", M::Arr(vec![M::Str(a), M::Str(b)]));
        })
        (raw)
    );
    d.m()
}

pub fn file_spec(s: &mut Src, w: &mut FileSpec<'_>) -> M {
    use AssociationKind as A;
    let mut d = D::ty("Filespec");
    ops!(s, w, d;
        (name file_system "FS")
        (string path "F")
        (tstr unic_file "UF")
        (boolean volatile "V")
        (text description "Desc")
        (act embedded_file {
            let r = s.rf();
            w.embedded_file(r);
            d.put("EF", D::new().with("F", ref_m(r)).m());
        })
        (act embedded_file_with_unicode {
            let r = s.rf();
            w.embedded_file_with_unicode(r);
            d.put("EF", D::new().with("F", ref_m(r)).with("UF", ref_m(r)).m());
        })
        (en association_kind "AFRelationship" [
            A::Source => "Source", A::Data => "Data", A::Alternative => "Alternative",
            A::Supplement => "Supplement", A::EncryptedPayload => "EncryptedPayload",
            A::FormData => "FormData", A::Schema => "Schema", A::Unspecified => "Unspecified",
        ])
        (raw)
    );
    d.m()
}

pub fn embedded_file(s: &mut Src, w: &mut EmbeddedFile<'_>) -> M {
    let mut d = D::ty("EmbeddedFile");
    ops!(s, w, d;
        (name subtype "Subtype")
        (nest params "Params" embedding_params)
        (raw)
    );
    stream_ops(s, w, &mut d);
    d.m()
}

pub fn embedding_params(s: &mut Src, w: &mut EmbeddingParams<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (int size "Size")
        (date creation_date "CreationDate")
        (date modification_date "ModDate")
        (string checksum "CheckSum")
        (raw)
    );
    d.m()
}

/// One resource category: references, and now and then a direct resource.
fn category(s: &mut Src, w: &mut Dict<'_>, mut direct: impl FnMut(&mut Src, Obj<'_>) -> M) -> M {
    let n = s.len(20);
    let mut e = D::new();
    for _ in 0..n {
        let k = s.name_bytes();
        if s.depth > 0 && s.below(4) == 0 {
            let o = w.insert(Name(&k));
            let m = s.nested(|s| direct(s, o));
            e.putb(&k, m);
        } else {
            let r = s.rf();
            w.pair(Name(&k), r);
            e.putb(&k, ref_m(r));
        }
    }
    e.m()
}

fn any_object(s: &mut Src, o: Obj<'_>) -> M {
    let t = Tree::gen(s, 1);
    t.write(o);
    t.model()
}

pub fn resources(s: &mut Src, w: &mut Resources<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (nest x_objects "XObject" |s: &mut Src, w: &mut Dict<'_>| category(s, w, any_object))
        (nest fonts "Font" |s: &mut Src, w: &mut Dict<'_>| category(s, w, |s, o| type1_font(s, &mut o.start())))
        (nest color_spaces "ColorSpace" |s: &mut Src, w: &mut Dict<'_>| category(s, w, |s, o| color_space(s, o.start())))
        (nest patterns "Pattern" |s: &mut Src, w: &mut Dict<'_>| category(s, w, |s, o| shading_pattern(s, &mut o.start())))
        (nest shadings "Shading" |s: &mut Src, w: &mut Dict<'_>| category(s, w, |s, o| function_shading(s, &mut o.start())))
        (nest ext_g_states "ExtGState" |s: &mut Src, w: &mut Dict<'_>| category(s, w, |s, o| ext_graphics(s, &mut o.start())))
        (act proc_sets {
            use ProcSet::*;
            let n = s.len(20);
            let v: Vec<_> = (0..n).map(|_| *s.pick(&[
                (Pdf, "PDF"), (Text, "Text"), (ImageGrayscale, "ImageB"), (ImageColor, "ImageC"), (ImageIndexed, "ImageI"),
            ])).collect();
            w.proc_sets(lz(v.iter().map(|x| x.0)));
            d.put("ProcSet", M::Arr(v.iter().map(|x| name(x.1)).collect()));
        })
        (act proc_sets_all {
            w.proc_sets_all();
            d.put("ProcSet", names_m(&["PDF", "Text", "ImageB", "ImageC", "ImageI"]));
        })
        (act properties {
            let n = s.count(0, 3);
            let mut e = D::new();
            {
                let mut x = w.properties();
                for _ in 0..n {
                    let k = s.name_bytes();
                    let mut p = x.insert(Name(&k));
                    let m = s.nested(|s| crate::content::property_list(s, &mut p));
                    e.putb(&k, m);
                }
            }
            d.put("Properties", e.m());
        })
        (raw)
    );
    d.m()
}

pub fn ext_graphics(s: &mut Src, w: &mut ExtGraphicsState<'_>) -> M {
    use BlendMode as B;
    let mut d = D::ty("ExtGState");
    ops!(s, w, d;
        (num line_width "LW")
        (eni line_cap "LC" [
            LineCapStyle::ButtCap => 0, LineCapStyle::RoundCap => 1, LineCapStyle::ProjectingSquareCap => 2,
        ])
        (eni line_join "LJ" [
            LineJoinStyle::MiterJoin => 0, LineJoinStyle::RoundJoin => 1, LineJoinStyle::BevelJoin => 2,
        ])
        (num miter_limit "ML")
        (act dash_pattern {
            let (v, p) = (s.nums(130), s.num());
            w.dash_pattern(lz(v.iter().copied()), p);
            d.put("D", M::Arr(vec![nums_m(&v), M::Num(p)]));
        })
        (en rendering_intent "RI" [
            RenderingIntent::AbsoluteColorimetric => "AbsoluteColorimetric",
            RenderingIntent::RelativeColorimetric => "RelativeColorimetric",
            RenderingIntent::Saturation => "Saturation", RenderingIntent::Perceptual => "Perceptual",
        ])
        (boolean overprint "OP")
        (boolean overprint_fill "op")
        (eni overprint_mode "OPM" [OverprintMode::OverrideAllColorants => 0, OverprintMode::IgnoreZeroChannel => 1])
        (act font {
            // The standard asks for a font reference here; the interface takes a name.
            let (n, z) = (s.name_bytes(), s.num());
            w.font(Name(&n), z);
            d.put("Font", M::Arr(vec![M::Name(n), M::Num(z)]));
        })
        (rf black_generation "BG")
        (konst black_generation_default "BG2" "Default")
        (rf undercolor_removal "UCR")
        (konst undercolor_removal_default "UCR2" "Default")
        (rf transfer "TR")
        (konst transfer_default "TR2" "Default")
        (rf halftone "HT")
        (konst halftone_default "HT" "Default")
        (num flatness "FL")
        (num smoothness "SM")
        (boolean stroke_adjustment "SA")
        (en blend_mode "BM" [
            B::Normal => "Normal", B::Multiply => "Multiply", B::Screen => "Screen", B::Overlay => "Overlay",
            B::Darken => "Darken", B::Lighten => "Lighten", B::ColorDodge => "ColorDodge",
            B::ColorBurn => "ColorBurn", B::HardLight => "HardLight", B::SoftLight => "SoftLight",
            B::Difference => "Difference", B::Exclusion => "Exclusion", B::Hue => "Hue",
            B::Saturation => "Saturation", B::Color => "Color", B::Luminosity => "Luminosity",
        ])
        (nest soft_mask "SMask" soft_mask)
        (name soft_mask_name "SMask")
        (num stroking_alpha "CA")
        (num non_stroking_alpha "ca")
        (boolean alpha_source "AIS")
        (boolean text_knockout "TK")
        (raw)
    );
    d.m()
}

pub fn soft_mask(s: &mut Src, w: &mut SoftMask<'_>) -> M {
    let mut d = D::ty("Mask");
    ops!(s, w, d;
        (en subtype "S" [MaskType::Alpha => "Alpha", MaskType::Luminosity => "Luminosity"])
        (rf group "G")
        (nums backdrop "BC")
        (rf transfer_function "TR")
        (raw)
    );
    d.m()
}
