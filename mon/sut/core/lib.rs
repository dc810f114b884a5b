//! The modules of /repo/crates/jarl-core that need neither air_* nor biome_*.
#![allow(dead_code, unused_imports, unexpected_cfgs)]
#[path = "/repo/crates/jarl-core/src/description.rs"]
pub mod description;
#[path = "/repo/crates/jarl-core/src/directive.rs"]
pub mod directive;
#[path = "/repo/crates/jarl-core/src/error.rs"]
pub mod error;
#[path = "/repo/crates/jarl-core/src/fs.rs"]
pub mod fs;
#[path = "/repo/crates/jarl-core/src/location.rs"]
pub mod location;
#[path = "/repo/crates/jarl-core/src/rule_set.rs"]
pub mod rule_set;
pub mod rmd {
    #[path = "/repo/crates/jarl-core/src/rmd/extraction.rs"]
    pub mod extraction;
}
