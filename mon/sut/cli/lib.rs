//! The modules of /repo/crates/jarl that need neither jarl-core, air_* nor biome_*.
#![allow(dead_code, unused_imports, unexpected_cfgs)]
#[path = "/repo/crates/jarl/src/logging.rs"]
pub mod logging;
#[path = "/repo/crates/jarl/src/status.rs"]
pub mod status;

/// `init_logging` is `pub(crate)` in the real crate; this makes it callable from the monitor.
pub fn verif_init_logging(level: logging::LogLevel) {
    logging::init_logging(level)
}
