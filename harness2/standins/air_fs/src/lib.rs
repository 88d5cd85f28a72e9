//! Stand-in for air's `fs` crate (whose sources are not available here).
use path_absolutize::Absolutize;
use std::path::{Path, PathBuf};

pub fn normalize_path<P: AsRef<Path>>(path: P) -> PathBuf {
    let path = path.as_ref();
    path.absolutize().map_or_else(|_| path.to_path_buf(), |p| p.to_path_buf())
}

/// The path relative to the working directory, if it is below it.
pub fn relativize_path<P: AsRef<Path>>(path: P) -> String {
    let path = path.as_ref();
    let cwd = std::env::current_dir().unwrap_or_default();
    match path.strip_prefix(&cwd) {
        Ok(p) => p.display().to_string(),
        Err(_) => path.display().to_string(),
    }
}
