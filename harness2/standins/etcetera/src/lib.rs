//! Stand-in for the `etcetera` crate (whose sources are not available here).
use std::path::{Path, PathBuf};
#[derive(Debug)]
pub struct HomeDirError;
impl std::fmt::Display for HomeDirError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("could not locate home directory")
    }
}
impl std::error::Error for HomeDirError {}
pub use base_strategy::BaseStrategy;
pub use base_strategy::choose_base_strategy;
pub mod base_strategy {
    use super::*;
    pub trait BaseStrategy: Sized {
        fn home_dir(&self) -> &Path;
        fn config_dir(&self) -> PathBuf;
    }
    pub struct Xdg {
        home: PathBuf,
    }
    impl BaseStrategy for Xdg {
        fn home_dir(&self) -> &Path {
            &self.home
        }
        fn config_dir(&self) -> PathBuf {
            match std::env::var_os("XDG_CONFIG_HOME").map(PathBuf::from) {
                Some(p) if p.is_absolute() => p,
                _ => self.home.join(".config"),
            }
        }
    }
    pub fn choose_base_strategy() -> Result<Xdg, HomeDirError> {
        Ok(Xdg { home: std::env::var_os("HOME").map(PathBuf::from).ok_or(HomeDirError)? })
    }
}
