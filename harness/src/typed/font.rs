//! Fonts.

use super::*;

pub fn type1_font(s: &mut Src, w: &mut Type1Font<'_>) -> M {
    let mut d = D::ty("Font").with("Subtype", name("Type1"));
    ops!(s, w, d;
        (name name "Name")
        (name base_font "BaseFont")
        (act first_char { let v = s.below(256) as u8; w.first_char(v); d.put("FirstChar", M::Int(v as i64)); })
        (act last_char { let v = s.below(256) as u8; w.last_char(v); d.put("LastChar", M::Int(v as i64)); })
        (nums widths "Widths")
        (rf font_descriptor "FontDescriptor")
        (name encoding_predefined "Encoding")
        (nest encoding_custom "Encoding" encoding)
        (rf to_unicode "ToUnicode")
        (raw)
    );
    d.m()
}

pub fn type3_font(s: &mut Src, w: &mut Type3Font<'_>) -> M {
    let mut d = D::ty("Font").with("Subtype", name("Type3"));
    ops!(s, w, d;
        (name name "Name")
        (rect bbox "FontBBox")
        (fixed matrix "FontMatrix" 6)
        (act char_procs {
            let n = s.len(130);
            let mut e = D::new();
            {
                let mut c = w.char_procs();
                for _ in 0..n {
                    let (k, r) = (s.name_bytes(), s.rf());
                    c.pair(Name(&k), r);
                    e.putb(&k, ref_m(r));
                }
            }
            d.put("CharProcs", e.m());
        })
        (name encoding_predefined "Encoding")
        (nest encoding_custom "Encoding" encoding)
        (act first_char { let v = s.below(256) as u8; w.first_char(v); d.put("FirstChar", M::Int(v as i64)); })
        (act last_char { let v = s.below(256) as u8; w.last_char(v); d.put("LastChar", M::Int(v as i64)); })
        (nums widths "Widths")
        (rf font_descriptor "FontDescriptor")
        (nest resources "Resources" resources)
        (rf to_unicode "ToUnicode")
        (raw)
    );
    d.m()
}

pub fn encoding(s: &mut Src, w: &mut Encoding<'_>) -> M {
    let mut d = D::ty("Encoding");
    ops!(s, w, d;
        (name base_encoding "BaseEncoding")
        (act differences {
            let n = s.count(0, 5);
            let mut v = Vec::new();
            {
                let mut x = w.differences();
                for _ in 0..n {
                    if s.one_in(8) {
                        // Through the array underneath.
                        let k = s.name_bytes();
                        x.item(Name(&k));
                        v.push(M::Name(k));
                        continue;
                    }
                    let start = s.below(256) as u8;
                    let c = s.len(256);
                    let names: Vec<Vec<u8>> = (0..c).map(|_| s.name_bytes()).collect();
                    x.consecutive(start, lz(names.iter().map(|n| Name(n))));
                    v.push(M::Int(start as i64));
                    v.extend(names.into_iter().map(M::Name));
                }
            }
            d.put("Differences", M::Arr(v));
        })
        (raw)
    );
    d.m()
}

pub fn type0_font(s: &mut Src, w: &mut Type0Font<'_>) -> M {
    let mut d = D::ty("Font").with("Subtype", name("Type0"));
    ops!(s, w, d;
        (name base_font "BaseFont")
        (name encoding_predefined "Encoding")
        (rf encoding_cmap "Encoding")
        (act descendant_font {
            let r = s.rf();
            w.descendant_font(r);
            d.put("DescendantFonts", refs_m(&[r]));
        })
        (rf to_unicode "ToUnicode")
        (raw)
    );
    d.m()
}

fn with_info<T>(s: &mut Src, f: impl FnOnce(SystemInfo<'_>) -> T) -> M {
    let (r, o, n) = match s.below(3) {
        0 => (b"Adobe".to_vec(), s.pick(&[&b"Identity"[..], b"Japan1", b"UCS"]).to_vec(), s.range(0, 7) as i32),
        _ => (s.bytes(60), s.bytes(60), s.int()),
    };
    f(SystemInfo { registry: Str(&r), ordering: Str(&o), supplement: n });
    D::new().with("Registry", M::Str(r)).with("Ordering", M::Str(o)).with("Supplement", M::Int(n as i64)).m()
}

pub fn cid_font(s: &mut Src, w: &mut CidFont<'_>) -> M {
    let mut d = D::ty("Font");
    ops!(s, w, d;
        (en subtype "Subtype" [CidFontType::Type0 => "CIDFontType0", CidFontType::Type2 => "CIDFontType2"])
        (name base_font "BaseFont")
        (act system_info {
            let m = with_info(s, |i| { w.system_info(i); });
            d.put("CIDSystemInfo", m);
        })
        (rf font_descriptor "FontDescriptor")
        (num default_width "DW")
        (act widths {
            let n = s.len(40);
            let mut v = Vec::new();
            {
                let mut x = w.widths();
                for _ in 0..n {
                    match s.below(5) {
                        0 | 1 => {
                            s.hit("consecutive widths");
                            let start = cid(s);
                            let ws = s.nums(300);
                            x.consecutive(start, lz(ws.iter().copied()));
                            v.push(M::Int(start as i64));
                            v.push(nums_m(&ws));
                        }
                        2 | 3 => {
                            s.hit("same widths");
                            let (a, b, c) = (cid(s), cid(s), s.num());
                            x.same(a, b, c);
                            v.extend([M::Int(a as i64), M::Int(b as i64), M::Num(c)]);
                        }
                        _ => {
                            let i = s.int();
                            x.item(i);
                            v.push(M::Int(i as i64));
                        }
                    }
                }
            }
            d.put("W", M::Arr(v));
        })
        (name cid_to_gid_map_predefined "CIDToGIDMap")
        (rf cid_to_gid_map_stream "CIDToGIDMap")
        (raw)
    );
    d.m()
}

fn cid(s: &mut Src) -> u16 {
    match s.below(3) {
        0 => s.below(20) as u16,
        1 => *s.pick(&[0, 255, 256, 32767, 32768, 65534, 65535]),
        _ => s.below(65536) as u16,
    }
}

pub fn font_descriptor(s: &mut Src, w: &mut FontDescriptor<'_>) -> M {
    use FontStretch::*;
    let mut d = D::ty("FontDescriptor");
    ops!(s, w, d;
        (name name "FontName")
        (string family "FontFamily")
        (en stretch "FontStretch" [
            UltraCondensed => "UltraCondensed", ExtraCondensed => "ExtraCondensed", Condensed => "Condensed",
            SemiCondensed => "SemiCondensed", Normal => "Normal", SemiExpanded => "SemiExpanded",
            Expanded => "Expanded", ExtraExpanded => "ExtraExpanded", UltraExpanded => "UltraExpanded",
        ])
        (act weight { let v = cid(s); w.weight(v); d.put("FontWeight", M::Int(v as i64)); })
        (flags flags "Flags" FontFlags [
            FIXED_PITCH => 1, SERIF => 2, SYMBOLIC => 3, SCRIPT => 4, NON_SYMBOLIC => 6, ITALIC => 7,
            ALL_CAP => 17, SMALL_CAP => 18, FORCE_BOLD => 19,
        ])
        (rect bbox "FontBBox")
        (num italic_angle "ItalicAngle")
        (num ascent "Ascent")
        (num descent "Descent")
        (num leading "Leading")
        (num cap_height "CapHeight")
        (num x_height "XHeight")
        (num stem_v "StemV")
        (num stem_h "StemH")
        (num avg_width "AvgWidth")
        (num max_width "MaxWidth")
        (num missing_width "MissingWidth")
        (rf font_file "FontFile")
        (rf font_file2 "FontFile2")
        (rf font_file3 "FontFile3")
        (string char_set "CharSet")
        (act style {
            let b: [u8; 12] = std::array::from_fn(|_| match s.below(3) {
                0 => s.below(12) as u8,
                1 => *s.pick(b"()\\\r\n\x00\x7f\x80\xff"),
                _ => s.below(256) as u8,
            });
            w.style(b[0], b[1], b[2..].try_into().unwrap());
            d.put("Style", D::new().with("Panose", M::Str(b.to_vec())).m());
        })
        (nest descriptor_override "FD" descriptor_override)
        (rf cid_set "CIDSet")
        (raw)
    );
    d.m()
}

fn cjk(s: &mut Src) -> (CjkClass, &'static str) {
    use CjkClass::*;
    *s.pick(&[
        (Alphabetic, "Alphabetic"), (AlphaNum, "AlphaNum"), (Dingbats, "Dingbats"),
        (DingbatsRot, "DingbatsRot"), (Generic, "Generic"), (GenericRot, "GenericRot"),
        (Hangul, "Hangul"), (Hanja, "Hanja"), (Hanzi, "Hanzi"), (HRoman, "HRoman"),
        (HRomanRot, "HRomanRot"), (HKana, "HKana"), (HKanaRot, "HKanaRot"), (HojoKanji, "HojoKanji"),
        (Kana, "Kana"), (Kanji, "Kanji"), (Proportional, "Proportional"),
        (ProportionalRot, "ProportionalRot"), (Ruby, "Ruby"),
    ])
}

pub fn descriptor_override(s: &mut Src, w: &mut FontDescriptorOverride<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (act custom_class {
            let k = s.name_bytes();
            let m = {
                let mut c = w.custom_class(Name(&k));
                s.nested(|s| font_descriptor(s, &mut c))
            };
            d.putb(&k, m);
        })
        (act custom_class_ref {
            let (k, r) = (s.name_bytes(), s.rf());
            w.custom_class_ref(Name(&k), r);
            d.putb(&k, ref_m(r));
        })
        (act cjk_class {
            let (k, n) = cjk(s);
            let m = {
                let mut c = w.cjk_class(k);
                s.nested(|s| font_descriptor(s, &mut c))
            };
            d.put(n, m);
        })
        (act cjk_class_ref {
            let (k, n) = cjk(s);
            let r = s.rf();
            w.cjk_class_ref(k, r);
            d.put(n, ref_m(r));
        })
        (raw)
    );
    d.m()
}

pub fn cmap(s: &mut Src, w: &mut Cmap<'_>) -> M {
    let mut d = D::ty("CMap");
    ops!(s, w, d;
        (name name "CMapName")
        (act system_info {
            let m = with_info(s, |i| { w.system_info(i); });
            d.put("CIDSystemInfo", m);
        })
        (eni writing_mode "WMode" [WMode::Horizontal => 0, WMode::Vertical => 1])
        (rf use_cmap_stream "UseCMap")
        (name use_cmap_predefined "UseCMap")
        (raw)
    );
    stream_ops(s, w, &mut d);
    d.m()
}
