//! The modules of /repo/crates/jarl-lsp that need neither jarl-core, air_* nor biome_*.
#![allow(dead_code, unused_imports, unexpected_cfgs)]
#[path = "/repo/crates/jarl-lsp/src/client.rs"]
pub mod client;
#[path = "/repo/crates/jarl-lsp/src/document.rs"]
pub mod document;
