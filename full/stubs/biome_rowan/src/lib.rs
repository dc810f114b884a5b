//! A stand-in for the parts of `biome_rowan` an R linter can use: immutable, lossless syntax trees.
#![allow(clippy::all)]
mod ast;
mod build;
mod text;
mod tree;
pub use ast::*;
pub use build::*;
pub use text::*;
pub use tree::*;
