//! The modules of jarl-lsp that compile without the unavailable dependencies.
#![allow(dead_code)]
#[path = "../gen/repo/crates/jarl-lsp/src/client.rs"]
pub mod client;
#[path = "../gen/repo/crates/jarl-lsp/src/document.rs"]
pub mod document;
