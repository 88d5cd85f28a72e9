//! The modules of jarl-core that compile without the unavailable dependencies.
#![allow(dead_code)]
#[path = "../gen/repo/crates/jarl-core/src/description.rs"]
pub mod description;
#[path = "../gen/repo/crates/jarl-core/src/directive.rs"]
pub mod directive;
#[path = "../gen/repo/crates/jarl-core/src/error.rs"]
pub mod error;
#[path = "../gen/repo/crates/jarl-core/src/fs.rs"]
pub mod fs;
#[path = "../gen/repo/crates/jarl-core/src/location.rs"]
pub mod location;
#[path = "../gen/repo/crates/jarl-core/src/rule_set.rs"]
pub mod rule_set;
#[path = "."]
pub mod rmd {
    #[path = "../gen/repo/crates/jarl-core/src/rmd/extraction.rs"]
    pub mod extraction;
}
