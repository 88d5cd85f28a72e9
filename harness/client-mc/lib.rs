//! jarl-lsp's client module, on the controlled scheduler.
#![allow(dead_code)]
#[path = "../gen/sub/crates/jarl-lsp/src/client.rs"]
pub mod client;
