//! The Zed extension, on an in-memory file system and a scripted host.
#![allow(dead_code)]
#[path = "../gen/sub/editors/zed/src/lib.rs"]
pub mod ext;
