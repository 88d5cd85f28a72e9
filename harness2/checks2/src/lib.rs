//! Shared by the checks of the whole linter: runs `jarl_core` on many small
//! files at once, in a scratch directory that is removed afterwards.
pub mod cli;
pub mod editor;
pub mod files;
pub mod progs;
pub mod term;
use jarl_core::check::check;
use jarl_core::config::{build_config, ArgsConfig};
use jarl_core::diagnostic::Diagnostic;
use jarl_core::settings::Settings;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

/// A scratch directory in memory, removed on drop; the process' working directory.
pub struct Scratch {
    pub dir: PathBuf,
}
static SEQ: AtomicU64 = AtomicU64::new(0);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let make = |b: &Path| {
            let d = b.join(format!("verif-{tag}-{}-{}", std::process::id(), SEQ.fetch_add(1, SeqCst)));
            std::fs::create_dir(&d).map(|_| d)
        };
        let dir = make(&base).or_else(|_| make(&std::env::temp_dir())).expect("scratch directory");
        mcx::remove_at_end(&dir);
        Scratch { dir: dir.canonicalize().unwrap() }
    }
    /// Makes it the working directory (before jarl looks at it for the first time).
    pub fn enter(&self) -> &Self {
        std::env::set_current_dir(&self.dir).unwrap();
        self
    }
    pub fn sub(&self) -> Scratch {
        let dir = self.dir.join(format!("d{}", SEQ.fetch_add(1, SeqCst)));
        std::fs::create_dir(&dir).unwrap();
        Scratch { dir }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

#[derive(Clone, Default, Debug)]
pub struct Opts {
    pub fix: bool,
    pub unsafe_fixes: bool,
    pub fix_only: bool,
    pub select: String,
    pub extend_select: String,
    pub ignore: String,
    pub min_r: Option<String>,
    pub settings: Option<Settings>,
    /// The preferred assignment operator.
    pub assignment: Option<String>,
}
impl Opts {
    pub fn all() -> Opts {
        Opts { select: "ALL".into(), min_r: Some("4.5".into()), ..Opts::default() }
    }
    pub fn fixing(mut self) -> Opts {
        self.fix = true;
        self
    }
    pub fn unsafely(mut self) -> Opts {
        self.fix = true;
        self.unsafe_fixes = true;
        self
    }
    pub fn equals(mut self) -> Opts {
        self.assignment = Some("=".into());
        self
    }
    pub fn args(&self, files: Vec<PathBuf>) -> ArgsConfig {
        ArgsConfig {
            files,
            fix: self.fix,
            unsafe_fixes: self.unsafe_fixes,
            fix_only: self.fix_only,
            select: self.select.clone(),
            extend_select: self.extend_select.clone(),
            ignore: self.ignore.clone(),
            min_r_version: self.min_r.clone(),
            allow_dirty: true,
            allow_no_vcs: true,
            assignment: self.assignment.clone(),
        }
    }
}

pub struct Outcome {
    pub result: Result<Vec<Diagnostic>, String>,
    /// The file's content afterwards.
    pub after: String,
}

/// Lints (or fixes) every text as a file of its own and reads it back.
pub fn run(scratch: &Scratch, ext: &str, texts: &[String], o: &Opts) -> Vec<Outcome> {
    let d = scratch.sub();
    let paths: Vec<PathBuf> = (0..texts.len()).map(|i| d.dir.join(format!("f{i}.{ext}"))).collect();
    for (p, t) in paths.iter().zip(texts) {
        std::fs::write(p, t).expect("write");
    }
    let config = build_config(&o.args(paths.clone()), o.settings.as_ref(), paths.clone()).expect("build_config");
    let results = check(config);
    assert_eq!(results.len(), texts.len());
    results
        .into_iter()
        .zip(&paths)
        .map(|((_, r), p)| Outcome {
            result: r.map_err(|e| format!("{e:#}")),
            after: std::fs::read_to_string(p).expect("read back"),
        })
        .collect()
}

/// Diagnostics of one text, without touching the disk.
pub fn lint_text(text: &str, name: &str, o: &Opts) -> Result<Vec<Diagnostic>, String> {
    let p = PathBuf::from(name);
    let config = build_config(&o.args(vec![p.clone()]), o.settings.as_ref(), vec![p.clone()]).map_err(|e| format!("{e:#}"))?;
    jarl_core::check::get_checks(text, &p, &config, &Default::default()).map_err(|e| format!("{e:#}"))
}

pub fn parses(text: &str) -> bool {
    !air_r_parser::parse(text, air_r_parser::RParserOptions::default()).has_error()
}
