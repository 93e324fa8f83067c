//! Property-based testing machinery for pdf-writer.
pub mod engine;
pub mod gen;
pub mod pdf;
pub mod content;
pub mod docs;
pub mod typed;
pub mod lits;
