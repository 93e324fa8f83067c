//! Checks of the core writers: files, objects, primitives, renumbering,
//! content streams, limits, character maps, calculator functions.

mod content;
mod file;
mod misc;
mod object;
mod primitive;
mod typed;

use vharness::engine;

fn main() {
    let mut props = Vec::new();
    props.extend(file::props());
    props.extend(primitive::props());
    props.extend(object::props());
    props.extend(content::props());
    props.extend(misc::props());
    props.extend(typed::props());
    engine::main(&props)
}
