//! Property-based testing engine and shared generators for the fundsp checks.
pub mod engine;
pub mod kind;
pub mod probe;
pub mod render;
pub use engine::*;
