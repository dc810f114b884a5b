//! A stand-in for the part of `biome_formatter` a linter can use: which node a comment belongs to.
#![allow(clippy::all)]
pub mod comments;
