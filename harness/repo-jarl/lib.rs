//! The modules of jarl that compile without the unavailable dependencies.
#![allow(dead_code)]
#[path = "../gen/repo/crates/jarl/src/logging.rs"]
pub mod logging;
#[path = "../gen/repo/crates/jarl/src/status.rs"]
pub mod status;

pub mod door {
    /// The logger is set up by a crate-private function.
    pub fn init_logging(level: crate::logging::LogLevel) {
        crate::logging::init_logging(level)
    }
    /// Every level, logged from inside the crate, and from a module of it.
    pub fn emit() {
        tracing::error!("from-crate");
        tracing::warn!("from-crate");
        tracing::info!("from-crate");
        tracing::debug!("from-crate");
        tracing::trace!("from-crate");
    }
}
