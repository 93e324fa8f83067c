//! Generated use of every typed writer: each function makes random builder
//! calls on a writer and returns the object ISO 32000 says they describe.

pub use crate::content::{artifact, property_list};
pub use crate::engine::Src;
pub use crate::gen::*;
pub use crate::ops;
pub use crate::pdf::{name, D, M};
pub use pdf_writer::types::*;
pub use pdf_writer::writers::*;
pub use pdf_writer::*;

mod annot;
mod attributes;
mod color;
mod font;
mod forms;
mod res;
mod structure;
pub use annot::*;
pub use attributes::*;
pub use color::*;
pub use font::*;
pub use forms::*;
pub use res::*;
pub use structure::*;

/// Write references into a typed array, through any of its calls.
pub fn fill(s: &mut Src, mut a: TypedArray<'_, Ref>, v: &[Ref]) {
    let mut i = 0;
    while i < v.len() {
        if s.coin() {
            a.item(v[i]);
            i += 1;
        } else {
            let k = s.usize(1, v.len() - i);
            a.items(lz(v[i..i + k].iter().copied()));
            i += k;
        }
    }
    if s.coin() {
        a.finish();
    }
}

/// How a writer is reached.
pub enum Kind {
    /// From any object position.
    Obj(fn(&mut Src, Obj<'_>) -> M),
    /// Through a method of the chunk.
    Chunk(fn(&mut Src, &mut Chunk, Ref) -> M),
    /// Through a method of the chunk, with stream data.
    Stream(fn(&mut Src, &mut Chunk, Ref, &[u8]) -> M),
    /// Through a method of the document.
    Doc(fn(&mut Src, &mut Pdf, Ref) -> M),
}

pub struct Case {
    pub prop: &'static str,
    pub name: &'static str,
    pub kind: Kind,
}

macro_rules! cases {
    ($( $p:literal { $($body:tt)* } )*) => {{
        #[allow(unused_mut)]
        let mut v: Vec<Case> = Vec::new();
        $( cases!(@ v $p $($body)*); )*
        v
    }};
    (@ $v:ident $p:literal) => {};
    (@ $v:ident $p:literal obj $f:ident, $($r:tt)*) => {
        $v.push(Case { prop: $p, name: stringify!($f), kind: Kind::Obj(|s, o| $f(s, &mut o.start())) });
        cases!(@ $v $p $($r)*);
    };
    (@ $v:ident $p:literal tree $f:ident $t:ty, $($r:tt)*) => {
        $v.push(Case {
            prop: $p,
            name: concat!(stringify!($f), " of ", stringify!($t)),
            kind: Kind::Obj(|s, o| $f::<$t>(s, &mut o.start())),
        });
        $v.push(Case {
            prop: $p,
            name: concat!("chunk ", stringify!($f), " of ", stringify!($t)),
            kind: Kind::Chunk(|s, c, i| $f::<$t>(s, &mut c.$f(i))),
        });
        cases!(@ $v $p $($r)*);
    };
    (@ $v:ident $p:literal val $f:ident, $($r:tt)*) => {
        $v.push(Case { prop: $p, name: stringify!($f), kind: Kind::Obj(|s, o| $f(s, o.start())) });
        cases!(@ $v $p $($r)*);
    };
    // Also reachable from the chunk.
    (@ $v:ident $p:literal both $f:ident $m:ident, $($r:tt)*) => {
        $v.push(Case { prop: $p, name: stringify!($f), kind: Kind::Obj(|s, o| $f(s, &mut o.start())) });
        $v.push(Case {
            prop: $p,
            name: concat!("chunk ", stringify!($f)),
            kind: Kind::Chunk(|s, c, i| $f(s, &mut c.$m(i))),
        });
        cases!(@ $v $p $($r)*);
    };
    (@ $v:ident $p:literal bothval $f:ident $m:ident, $($r:tt)*) => {
        $v.push(Case { prop: $p, name: stringify!($f), kind: Kind::Obj(|s, o| $f(s, o.start())) });
        $v.push(Case {
            prop: $p,
            name: concat!("chunk ", stringify!($f)),
            kind: Kind::Chunk(|s, c, i| $f(s, c.$m(i))),
        });
        cases!(@ $v $p $($r)*);
    };
    (@ $v:ident $p:literal stream $f:ident $m:ident, $($r:tt)*) => {
        $v.push(Case {
            prop: $p,
            name: concat!("stream ", stringify!($f)),
            kind: Kind::Stream(|s, c, i, data| $f(s, &mut c.$m(i, data))),
        });
        cases!(@ $v $p $($r)*);
    };
    (@ $v:ident $p:literal doc $f:ident, $($r:tt)*) => {
        $v.push(Case { prop: $p, name: stringify!($f), kind: Kind::Obj(|s, o| $f(s, &mut o.start())) });
        $v.push(Case {
            prop: $p,
            name: concat!("document ", stringify!($f)),
            kind: Kind::Doc(|s, d, i| $f(s, &mut d.$f(i))),
        });
        cases!(@ $v $p $($r)*);
    };
    (@ $v:ident $p:literal chunkfn $n:literal $f:expr, $($r:tt)*) => {
        $v.push(Case { prop: $p, name: $n, kind: Kind::Chunk($f) });
        cases!(@ $v $p $($r)*);
    };
}

/// Every writer, by the property that covers it.
pub fn cases() -> Vec<Case> {
    cases! {
        "C17" {
            doc catalog, doc document_info, obj developer_extension, obj viewer_preferences,
            tree name_tree Ref, tree name_tree i32, tree name_tree f32, tree name_tree bool,
            tree name_tree Rect, tree name_tree Null,
            tree number_tree Ref, tree number_tree i32, tree number_tree f32, tree number_tree bool,
            tree number_tree Rect, tree number_tree Null,
            obj names, obj page_label, both pages pages, both page page,
            both outline outline, both outline_item outline_item, bothval destination destination,
            stream metadata metadata,
            chunkfn "chunk destinations" |s, c, i| {
                let n = s.len(20);
                let mut d = D::new();
                let mut x = c.destinations(i);
                for _ in 0..n {
                    let k = s.name_bytes();
                    let m = destination(s, x.insert(Name(&k)));
                    d.putb(&k, m);
                }
                d.m()
            },
        }
        "C18" {
            obj mark_info, obj struct_tree_root, obj role_map, obj class_map,
            both struct_element struct_element, obj struct_children, obj marked_ref, obj object_ref,
            bothval namespace namespace, obj namespace_role_map, val attributes, obj user_property,
            val attributes, val attributes, val attributes, val attributes,
        }
        "C19" {
            both type1_font type1_font, both type3_font type3_font, both type0_font type0_font,
            both cid_font cid_font, both font_descriptor font_descriptor, obj encoding,
            obj descriptor_override, stream cmap cmap,
        }
        "C20" {
            bothval color_space color_space, val color_space, val color_space, stream icc_profile icc_profile,
            stream sampled sampled_function, both exponential exponential_function,
            both stitching stitching_function, stream post_script post_script_function,
            stream tiling_pattern tiling_pattern, both shading_pattern shading_pattern,
            both function_shading function_shading, stream stream_shading stream_shading,
            obj separation_info, obj output_intent, obj device_n_attrs, obj device_n_process,
            obj mixing_hints,
        }
        "C21" {
            both annotation annotation, obj appearance_characteristics, obj icon_fit, obj appearance,
            obj border_style, obj action, obj fields, obj additional_actions, obj rendition,
            obj media_clip, obj media_play_params, obj media_permissions, obj transition,
        }
        "C22" {
            obj form, bothval field form_field, obj choice_options, both field_lock signature_field_lock,
            both seed_value signature_seed_value, obj mdp, obj timestamp, obj certificate,
        }
        "C23" {
            stream image image_xobject, stream form_xobject form_xobject, obj group, obj reference,
            both file_spec file_spec, stream embedded_file embedded_file, obj embedding_params,
            obj resources, both ext_graphics ext_graphics, obj soft_mask, obj decode_parms,
            stream stream stream, obj property_list, obj artifact,
        }
    }
}

impl Case {
    /// Perform the calls on a chunk.
    pub fn write(&self, s: &mut Src, c: &mut Chunk, id: Ref, data: &[u8]) -> M {
        match self.kind {
            Kind::Obj(f) => f(s, c.indirect(id)),
            Kind::Chunk(f) => f(s, c, id),
            Kind::Stream(f) => f(s, c, id, data),
            Kind::Doc(f) => {
                let mut p = Pdf::with_settings(Settings { pretty: true });
                f(s, &mut p, id)
            }
        }
    }
}

thread_local! {
    static CASES: &'static [Case] = Box::leak(cases().into_boxed_slice());
}

pub fn all() -> &'static [Case] {
    CASES.with(|c| *c)
}

/// Any typed writer, filled at random; and the data, if it writes a stream
/// (whose length is not among the expected entries).
pub fn any(s: &mut Src, c: &mut Chunk, id: Ref) -> (M, Option<Vec<u8>>) {
    let all = all();
    let k = s.below(all.len() as u64) as usize;
    match all[k].kind {
        Kind::Doc(_) => {
            let d = crate::gen::Tree::gen(s, 1);
            d.write(c.indirect(id));
            (d.model(), None)
        }
        Kind::Stream(_) => {
            let data = s.bytes(60);
            (all[k].write(s, c, id, &data), Some(data))
        }
        _ => (all[k].write(s, c, id, &[]), None),
    }
}
