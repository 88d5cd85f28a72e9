//! Runs the `jarl` program that was built next to the check.
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};

pub fn jarl() -> PathBuf {
    let p = std::env::current_exe().unwrap().with_file_name("jarl");
    assert!(p.is_file(), "no jarl program next to the check");
    p
}
pub struct Ran {
    pub status: Option<i32>,
    pub out: String,
    pub err: String,
}
/// `jarl ARGS` in `dir`, with an environment of its own.
pub fn run_in(dir: &Path, args: &[&str]) -> Ran {
    run_home(dir, dir, args)
}
/// The same for a user with this home directory.
pub fn run_home(dir: &Path, home: &Path, args: &[&str]) -> Ran {
    let Output { status, stdout, stderr } = Command::new(jarl())
        .args(args)
        .current_dir(dir)
        .env_clear()
        .env("HOME", home)
        .env("NO_COLOR", "1")
        .stdin(Stdio::null())
        .output()
        .expect("run jarl");
    Ran { status: status.code(), out: String::from_utf8_lossy(&stdout).into(), err: String::from_utf8_lossy(&stderr).into() }
}
