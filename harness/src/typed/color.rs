//! Color spaces, functions, patterns, shadings, output intents.

use super::*;

const D65: [f32; 3] = [0.9505, 1.0, 1.0888];
const D50: [f32; 3] = [0.9642, 1.0, 0.82489];
const E: [f32; 3] = [1.0, 1.0, 1.0];
const C: [f32; 3] = [0.9807, 1.0, 1.1822];


fn cal(white: [f32; 3], gamma: [f32; 3], matrix: [f32; 9]) -> M {
    let d = D::new()
        .with("WhitePoint", nums_m(&white))
        .with("Gamma", nums_m(&gamma))
        .with("Matrix", nums_m(&matrix));
    M::Arr(vec![name("CalRGB"), d.m()])
}

fn gray(white: [f32; 3], gamma: Option<f32>) -> M {
    let mut d = D::new().with("WhitePoint", nums_m(&white));
    if let Some(g) = gamma {
        d.put("Gamma", M::Num(g));
    }
    M::Arr(vec![name("CalGray"), d.m()])
}

fn opt<T>(s: &mut Src, f: impl FnOnce(&mut Src) -> T) -> Option<T> {
    if s.coin() { Some(f(s)) } else { None }
}

fn arr<const N: usize>(s: &mut Src) -> [f32; N] {
    s.arr()
}

pub fn color_space(s: &mut Src, w: ColorSpace<'_>) -> M {
    let top = if s.depth == 0 { 20 } else { 26 };
    match s.below(top) {
        0 => {
            s.hit("cal rgb");
            let wp = arr(s);
            let (bp, g, m) = (opt(s, arr), opt(s, arr), opt(s, arr));
            w.cal_rgb(wp, bp, g, m);
            let mut d = D::new().with("WhitePoint", nums_m(&wp));
            if let Some(v) = bp {
                d.put("BlackPoint", nums_m(&v));
            }
            if let Some(v) = g {
                d.put("Gamma", nums_m(&v));
            }
            if let Some(v) = m {
                d.put("Matrix", nums_m(&v));
            }
            M::Arr(vec![name("CalRGB"), d.m()])
        }
        1 => {
            s.hit("cal gray");
            let wp = arr(s);
            let (bp, g) = (opt(s, arr), opt(s, |s| s.num()));
            w.cal_gray(wp, bp, g);
            let mut d = D::new().with("WhitePoint", nums_m(&wp));
            if let Some(v) = bp {
                d.put("BlackPoint", nums_m(&v));
            }
            if let Some(v) = g {
                d.put("Gamma", M::Num(v));
            }
            M::Arr(vec![name("CalGray"), d.m()])
        }
        2 => {
            s.hit("lab");
            let wp = arr(s);
            let (bp, g) = (opt(s, arr), opt(s, arr));
            w.lab(wp, bp, g);
            let mut d = D::new().with("WhitePoint", nums_m(&wp));
            if let Some(v) = bp {
                d.put("BlackPoint", nums_m(&v));
            }
            if let Some(v) = g {
                d.put("Range", nums_m(&v));
            }
            M::Arr(vec![name("Lab"), d.m()])
        }
        3 => {
            s.hit("icc based");
            let r = s.rf();
            w.icc_based(r);
            M::Arr(vec![name("ICCBased"), ref_m(r)])
        }
        4 => {
            s.hit("preset rgb");
            match s.below(7) {
                0 => {
                    w.srgb();
                    cal(D65, [2.2; 3], [0.4124, 0.2126, 0.0193, 0.3576, 0.715, 0.1192, 0.1805, 0.0722, 0.9505])
                }
                1 => {
                    w.adobe_rgb();
                    cal(D65, [2.1992188; 3], [0.57667, 0.29734, 0.02703, 0.18556, 0.62736, 0.07069, 0.18823, 0.07529, 0.99134])
                }
                2 => {
                    w.display_p3();
                    cal(D65, [2.6; 3], [0.48657, 0.2297, 0.0, 0.26567, 0.69174, 0.04511, 0.19822, 0.07929, 1.04394])
                }
                3 => {
                    w.pro_photo();
                    cal(D50, [1.8; 3], [0.7976749, 0.2880402, 0.0, 0.1351917, 0.7118741, 0.0, 0.0313534, 0.0000857, 0.82521])
                }
                4 => {
                    w.eci_rgb();
                    cal(D50, [1.8; 3], [0.6502043, 0.3202499, 0.0, 0.1780774, 0.6020711, 0.067839, 0.1359384, 0.0776791, 0.757371])
                }
                5 => {
                    w.ntsc();
                    cal(C, [2.2; 3], [0.6068909, 0.2989164, 0.0, 0.1735011, 0.586599, 0.0660957, 0.200348, 0.1144845, 1.1162243])
                }
                _ => {
                    w.pal();
                    cal(D65, [2.2; 3], [0.430619, 0.2220379, 0.0201853, 0.3415419, 0.7066384, 0.1295504, 0.1783091, 0.0713236, 0.9390944])
                }
            }
        }
        5 => {
            s.hit("preset gray");
            let g = opt(s, |s| s.num());
            match s.below(4) {
                0 => {
                    w.d65_gray();
                    gray(D65, Some(2.2))
                }
                1 => {
                    w.d50_gray(g);
                    gray(D50, g)
                }
                2 => {
                    w.c_gray();
                    gray(C, Some(2.2))
                }
                _ => {
                    w.e_gray(g);
                    gray(E, g)
                }
            }
        }
        6..=8 => {
            s.hit("device rgb");
            w.device_rgb();
            name("DeviceRGB")
        }
        9 | 10 => {
            s.hit("device cmyk");
            w.device_cmyk();
            name("DeviceCMYK")
        }
        11 | 12 => {
            s.hit("device gray");
            w.device_gray();
            name("DeviceGray")
        }
        13..=15 => {
            s.hit("indexed");
            let n = s.name_bytes();
            let h = s.int();
            let lookup = if s.coin() { s.bytes(300) } else { (0..s.len(1000)).map(|_| s.below(256) as u8).collect() };
            w.indexed(Name(&n), h, &lookup);
            M::Arr(vec![name("Indexed"), M::Name(n), M::Int(h as i64), M::Str(lookup)])
        }
        16..=17 => {
            s.hit("pattern space");
            let n = s.name_bytes();
            w.pattern(Name(&n));
            M::Arr(vec![name("Pattern"), M::Name(n)])
        }
        18..=22 => {
            s.hit("separation");
            let n = s.name_bytes();
            let mut v = vec![name("Separation"), M::Name(n.clone())];
            let mut w = w.separation(Name(&n));
            match s.below(4) {
                0 => {
                    // Left incomplete.
                    return M::Arr(v);
                }
                1 => {
                    let r = s.rf();
                    w.alternate_color_space_ref(r);
                    v.push(ref_m(r));
                }
                _ => {
                    let c = w.alternate_color_space();
                    v.push(s.nested(|s| color_space(s, c)));
                }
            }
            match s.below(3) {
                0 => {
                    let r = s.rf();
                    w.tint_ref(r);
                    v.push(ref_m(r));
                }
                1 => {
                    let mut f = w.tint_exponential();
                    v.push(s.nested(|s| exponential(s, &mut f)));
                }
                _ => {
                    let mut f = w.tint_stitching();
                    v.push(s.nested(|s| stitching(s, &mut f)));
                }
            }
            M::Arr(v)
        }
        _ => {
            s.hit("device n");
            let n = s.len(40);
            let names: Vec<Vec<u8>> = (0..n).map(|_| s.name_bytes()).collect();
            let mut w = w.device_n(lz(names.iter().map(|n| Name(n))));
            let mut v = vec![name("DeviceN"), M::Arr(names.iter().cloned().map(M::Name).collect())];
            match s.below(4) {
                0 => {
                    return M::Arr(v);
                }
                1 => {
                    let r = s.rf();
                    w.alternate_color_space_ref(r);
                    v.push(ref_m(r));
                }
                _ => {
                    let c = w.alternate_color_space();
                    v.push(s.nested(|s| color_space(s, c)));
                }
            }
            match s.below(3) {
                0 => {
                    let r = s.rf();
                    w.tint_ref(r);
                    v.push(ref_m(r));
                }
                1 => {
                    let mut f = w.tint_exponential();
                    v.push(s.nested(|s| exponential(s, &mut f)));
                }
                _ => {
                    let mut f = w.tint_stitching();
                    v.push(s.nested(|s| stitching(s, &mut f)));
                }
            }
            if s.coin() {
                let mut a = w.attrs();
                v.push(s.nested(|s| device_n_attrs(s, &mut a)));
            }
            M::Arr(v)
        }
    }
}

pub fn device_n_attrs(s: &mut Src, w: &mut DeviceNAttrs<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (en subtype "Subtype" [DeviceNSubtype::DeviceN => "DeviceN", DeviceNSubtype::NChannel => "NChannel"])
        (act colorants {
            let n = s.count(0, 3);
            let mut e = D::new();
            {
                let mut c = w.colorants();
                for _ in 0..n {
                    let k = s.name_bytes();
                    let mut x = c.insert(Name(&k));
                    let mut f = D::new();
                    for _ in 0..s.below(3) {
                        put_raw(s, &mut x, &mut f);
                    }
                    e.putb(&k, f.m());
                }
            }
            d.put("Colorants", e.m());
        })
        (nest process "Process" device_n_process)
        (nest mixing_hints "MixingHints" mixing_hints)
    );
    d.m()
}

pub fn device_n_process(s: &mut Src, w: &mut DeviceNProcess<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (name color_space "ColorSpace")
        (nestval color_space_array "ColorSpace" color_space)
        (names components "Components")
    );
    d.m()
}

pub fn mixing_hints(s: &mut Src, w: &mut DeviceNMixingHints<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (act solidities {
            let n = s.count(0, 4);
            let mut e = D::new();
            {
                let mut c = w.solidities();
                for _ in 0..n {
                    let (k, v) = (s.name_bytes(), s.num());
                    c.pair(Name(&k), v);
                    e.putb(&k, M::Num(v));
                }
            }
            d.put("Solidities", e.m());
        })
        (names printing_order "PrintingOrder")
        (act dot_gain {
            let n = s.count(0, 4);
            let mut e = D::new();
            {
                let mut c = w.dot_gain();
                for _ in 0..n {
                    let (k, v) = (s.name_bytes(), s.num());
                    c.pair(Name(&k), v);
                    e.putb(&k, M::Num(v));
                }
            }
            d.put("DotGain", e.m());
        })
    );
    d.m()
}

pub fn icc_profile(s: &mut Src, w: &mut IccProfile<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (act n { let v = *s.pick(&[1, 3, 4]); w.n(v); d.put("N", M::Int(v as i64)); })
        (nestval alternate "Alternate" color_space)
        (name alternate_name "Alternate")
        (nums range "Range")
        (rf metadata "Metadata")
        (raw)
    );
    stream_ops(s, w, &mut d);
    d.m()
}

pub fn sampled(s: &mut Src, w: &mut SampledFunction<'_>) -> M {
    let mut d = D::new().with("FunctionType", M::Int(0));
    ops!(s, w, d;
        (nums domain "Domain")
        (nums range "Range")
        (ints size "Size")
        (int bits_per_sample "BitsPerSample")
        (eni order "Order" [InterpolationOrder::Linear => 1, InterpolationOrder::Cubic => 3])
        (nums encode "Encode")
        (nums decode "Decode")
        (raw)
    );
    stream_ops(s, w, &mut d);
    d.m()
}

pub fn exponential(s: &mut Src, w: &mut ExponentialFunction<'_>) -> M {
    let mut d = D::new().with("FunctionType", M::Int(2));
    ops!(s, w, d;
        (nums domain "Domain")
        (nums range "Range")
        (nums c0 "C0")
        (nums c1 "C1")
        (num n "N")
        (raw)
    );
    d.m()
}

pub fn stitching(s: &mut Src, w: &mut StitchingFunction<'_>) -> M {
    let mut d = D::new().with("FunctionType", M::Int(3));
    ops!(s, w, d;
        (nums domain "Domain")
        (nums range "Range")
        (refs functions "Functions")
        (nums bounds "Bounds")
        (nums encode "Encode")
        (raw)
    );
    d.m()
}

pub fn post_script(s: &mut Src, w: &mut PostScriptFunction<'_>) -> M {
    let mut d = D::new().with("FunctionType", M::Int(4));
    ops!(s, w, d;
        (nums domain "Domain")
        (nums range "Range")
        (raw)
    );
    stream_ops(s, w, &mut d);
    d.m()
}

pub fn tiling_pattern(s: &mut Src, w: &mut TilingPattern<'_>) -> M {
    let mut d = D::ty("Pattern").with("PatternType", M::Int(1));
    ops!(s, w, d;
        (eni paint_type "PaintType" [PaintType::Colored => 1, PaintType::Uncolored => 2])
        (eni tiling_type "TilingType" [
            TilingType::ConstantSpacing => 1, TilingType::NoDistortion => 2, TilingType::FastConstantSpacing => 3,
        ])
        (rect bbox "BBox")
        (act x_step { let v = step(s); w.x_step(v); d.put("XStep", M::Num(v)); })
        (act y_step { let v = step(s); w.y_step(v); d.put("YStep", M::Num(v)); })
        (nest resources "Resources" resources)
        (fixed matrix "Matrix" 6)
        (raw)
    );
    stream_ops(s, w, &mut d);
    d.m()
}

fn step(s: &mut Src) -> f32 {
    let v = s.num();
    if v == 0.0 { 1.0 } else { v }
}

pub fn shading_pattern(s: &mut Src, w: &mut ShadingPattern<'_>) -> M {
    let mut d = D::ty("Pattern").with("PatternType", M::Int(2));
    ops!(s, w, d;
        (nest function_shading "Shading" function_shading)
        (rf shading_ref "Shading")
        (fixed matrix "Matrix" 6)
        (nest ext_graphics "ExtGState" ext_graphics)
        (raw)
    );
    d.m()
}

pub fn function_shading(s: &mut Src, w: &mut FunctionShading<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (eni shading_type "ShadingType" [
            FunctionShadingType::Function => 1, FunctionShadingType::Axial => 2, FunctionShadingType::Radial => 3,
        ])
        (nestval color_space "ColorSpace" color_space)
        (nums background "Background")
        (rect bbox "BBox")
        (boolean anti_alias "AntiAlias")
        (fixed domain "Domain" 4)
        (fixed matrix "Matrix" 6)
        (rf function "Function")
        (nums coords "Coords")
        (act extend {
            let v = [s.coin(), s.coin()];
            w.extend(v);
            d.put("Extend", M::Arr(v.map(M::Bool).to_vec()));
        })
        (raw)
    );
    d.m()
}

pub fn stream_shading(s: &mut Src, w: &mut StreamShading<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (eni shading_type "ShadingType" [
            StreamShadingType::FreeformGouraud => 4, StreamShadingType::LatticeGouraud => 5,
            StreamShadingType::CoonsPatch => 6, StreamShadingType::TensorProductPatch => 7,
        ])
        (nestval color_space "ColorSpace" color_space)
        (nums background "Background")
        (rect bbox "BBox")
        (boolean anti_alias "AntiAlias")
        (rf function "Function")
        (int bits_per_coordinate "BitsPerCoordinate")
        (int bits_per_component "BitsPerComponent")
        (int bits_per_flag "BitsPerFlag")
        (nums decode "Decode")
        (int vertices_per_row "VerticesPerRow")
        (raw)
    );
    stream_ops(s, w, &mut d);
    d.m()
}

pub fn separation_info(s: &mut Src, w: &mut SeparationInfo<'_>) -> M {
    let mut d = D::new();
    ops!(s, w, d;
        (refs pages "Pages")
        (name device_colorant "DeviceColorant")
        (act device_colorant_str {
            let t = s.text(60);
            w.device_colorant_str(&t);
            d.put("DeviceColorant", M::Text(t));
        })
        (nestval color_space "ColorSpace" color_space)
    );
    d.m()
}

pub fn output_intent(s: &mut Src, w: &mut OutputIntent<'_>) -> M {
    let mut d = D::ty("OutputIntent");
    let custom = s.name_bytes();
    ops!(s, w, d;
        (en subtype "S" [
            OutputIntentSubtype::PDFX => "GTS_PDFX", OutputIntentSubtype::PDFA => "GTS_PDFA1",
            OutputIntentSubtype::PDFE => "ISO_PDFE1",
        ])
        (act custom_subtype {
            w.subtype(OutputIntentSubtype::Custom(Name(&custom)));
            d.put("S", M::Name(custom.clone()));
        })
        (text output_condition "OutputCondition")
        (text output_condition_identifier "OutputConditionIdentifier")
        (tstr registry_name "RegistryName")
        (text info "Info")
        (rf dest_output_profile "DestOutputProfile")
    );
    d.m()
}
