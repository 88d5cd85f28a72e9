//! Stand-in for the `ignore` crate (whose sources are not available here):
//! the same filters and the same order of precedence, walked by one thread.
//! The order in which a directory's entries come is a parameter, because the
//! real walkers promise none.
use std::ffi::OsStr;
use std::fmt;
use std::fs::{FileType, Metadata};
use std::path::{Path, PathBuf};

pub mod gitignore;
pub mod overrides;

#[derive(Debug, Clone)]
pub enum Error {
    Glob { glob: Option<String>, err: String },
    Io(String),
    WithPath { path: PathBuf, err: Box<Error> },
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::Glob { glob: Some(g), err } => write!(f, "error parsing glob '{g}': {err}"),
            Error::Glob { glob: None, err } => f.write_str(err),
            Error::Io(e) => f.write_str(e),
            Error::WithPath { path, err } => write!(f, "{}: {err}", path.display()),
        }
    }
}
impl std::error::Error for Error {}

#[derive(Debug, Clone)]
pub enum Match<T> {
    None,
    Ignore(T),
    Whitelist(T),
}
impl<T> Match<T> {
    pub fn is_none(&self) -> bool {
        matches!(self, Match::None)
    }
    pub fn is_ignore(&self) -> bool {
        matches!(self, Match::Ignore(_))
    }
    pub fn is_whitelist(&self) -> bool {
        matches!(self, Match::Whitelist(_))
    }
    pub fn invert(self) -> Match<T> {
        match self {
            Match::None => Match::None,
            Match::Ignore(t) => Match::Whitelist(t),
            Match::Whitelist(t) => Match::Ignore(t),
        }
    }
    pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> Match<U> {
        match self {
            Match::None => Match::None,
            Match::Ignore(t) => Match::Ignore(f(t)),
            Match::Whitelist(t) => Match::Whitelist(f(t)),
        }
    }
}

#[derive(Debug, Clone)]
pub struct DirEntry {
    path: PathBuf,
    ty: Option<FileType>,
    depth: usize,
}
impl DirEntry {
    pub fn path(&self) -> &Path {
        &self.path
    }
    pub fn into_path(self) -> PathBuf {
        self.path
    }
    pub fn file_type(&self) -> Option<FileType> {
        self.ty
    }
    pub fn file_name(&self) -> &OsStr {
        self.path.file_name().unwrap_or(self.path.as_os_str())
    }
    pub fn depth(&self) -> usize {
        self.depth
    }
    pub fn metadata(&self) -> Result<Metadata, Error> {
        std::fs::symlink_metadata(&self.path).map_err(|e| Error::Io(e.to_string()))
    }
    pub fn error(&self) -> Option<&Error> {
        None
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum WalkState {
    Continue,
    Skip,
    Quit,
}
pub trait ParallelVisitor: Send {
    fn visit(&mut self, entry: Result<DirEntry, Error>) -> WalkState;
}
pub trait ParallelVisitorBuilder<'s> {
    fn build(&mut self) -> Box<dyn ParallelVisitor + 's>;
}

/// How the entries of a directory are ordered: 0 by name, 1 reversed, ...
pub static ORDER: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// Over how many visitors (threads of the real walker) entries are dealt.
pub static VISITORS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);

fn arrange<T>(v: Vec<T>) -> Vec<T> {
    // The n-th permutation, in the factorial number system.
    let mut n = ORDER.load(std::sync::atomic::Ordering::SeqCst);
    let mut v: Vec<Option<T>> = v.into_iter().map(Some).collect();
    let mut out = vec![];
    while !v.is_empty() {
        let k = v.len();
        let i = n % k;
        n /= k;
        out.push(v.remove(i).unwrap());
    }
    out
}

#[derive(Clone)]
pub struct WalkBuilder {
    paths: Vec<PathBuf>,
    hidden: bool,
    parents: bool,
    ignore: bool,
    git_ignore: bool,
    git_global: bool,
    git_exclude: bool,
    require_git: bool,
    max_depth: Option<usize>,
    overrides: overrides::Override,
}
impl WalkBuilder {
    pub fn new<P: AsRef<Path>>(p: P) -> Self {
        WalkBuilder {
            paths: vec![p.as_ref().to_path_buf()],
            hidden: true,
            parents: true,
            ignore: true,
            git_ignore: true,
            git_global: true,
            git_exclude: true,
            require_git: true,
            max_depth: None,
            overrides: overrides::Override::empty(),
        }
    }
    pub fn add<P: AsRef<Path>>(&mut self, p: P) -> &mut Self {
        self.paths.push(p.as_ref().to_path_buf());
        self
    }
    pub fn hidden(&mut self, v: bool) -> &mut Self {
        self.hidden = v;
        self
    }
    pub fn parents(&mut self, v: bool) -> &mut Self {
        self.parents = v;
        self
    }
    pub fn ignore(&mut self, v: bool) -> &mut Self {
        self.ignore = v;
        self
    }
    pub fn git_ignore(&mut self, v: bool) -> &mut Self {
        self.git_ignore = v;
        self
    }
    pub fn git_global(&mut self, v: bool) -> &mut Self {
        self.git_global = v;
        self
    }
    pub fn git_exclude(&mut self, v: bool) -> &mut Self {
        self.git_exclude = v;
        self
    }
    pub fn require_git(&mut self, v: bool) -> &mut Self {
        self.require_git = v;
        self
    }
    pub fn standard_filters(&mut self, v: bool) -> &mut Self {
        self.hidden(v).parents(v).ignore(v).git_ignore(v).git_global(v).git_exclude(v)
    }
    pub fn follow_links(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn max_depth(&mut self, d: Option<usize>) -> &mut Self {
        self.max_depth = d;
        self
    }
    pub fn threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn overrides(&mut self, o: overrides::Override) -> &mut Self {
        self.overrides = o;
        self
    }
    pub fn build(&self) -> Walk {
        let mut all = vec![];
        self.run(&mut |e| {
            all.push(e);
            WalkState::Continue
        });
        Walk(all.into_iter())
    }
    pub fn build_parallel(&self) -> WalkParallel {
        WalkParallel(self.clone())
    }

    fn run(&self, f: &mut dyn FnMut(Result<DirEntry, Error>) -> WalkState) {
        for p in arrange(self.paths.clone()) {
            let ty = match std::fs::metadata(&p) {
                Ok(m) => m.file_type(),
                Err(e) => {
                    let err = Error::WithPath { path: p.clone(), err: Box::new(Error::Io(e.to_string())) };
                    if f(Err(err)) == WalkState::Quit {
                        return;
                    }
                    continue;
                }
            };
            let e = DirEntry { path: p, ty: Some(ty), depth: 0 };
            if self.go(e, f) == WalkState::Quit {
                return;
            }
        }
    }
    fn go(&self, e: DirEntry, f: &mut dyn FnMut(Result<DirEntry, Error>) -> WalkState) -> WalkState {
        let is_dir = e.ty.is_some_and(|t| t.is_dir());
        let (path, depth) = (e.path.clone(), e.depth);
        match f(Ok(e)) {
            WalkState::Continue => {}
            s => return s,
        }
        if !is_dir || self.max_depth.is_some_and(|m| depth >= m) {
            return WalkState::Continue;
        }
        let rd = match std::fs::read_dir(&path) {
            Ok(rd) => rd,
            Err(e) => return f(Err(Error::WithPath { path, err: Box::new(Error::Io(e.to_string())) })),
        };
        let mut kids: Vec<_> = rd.flatten().collect();
        kids.sort_by_key(|k| k.file_name());
        for k in arrange(kids) {
            let ty = k.file_type().ok();
            let p = path.join(k.file_name());
            let dir = ty.is_some_and(|t| t.is_dir());
            if self.skip(&p, dir) {
                continue;
            }
            let d = DirEntry { path: p, ty, depth: depth + 1 };
            if self.go(d, f) == WalkState::Quit {
                return WalkState::Quit;
            }
        }
        WalkState::Continue
    }
    fn skip(&self, path: &Path, is_dir: bool) -> bool {
        if !self.overrides.is_empty() {
            match self.overrides.matched(path, is_dir) {
                Match::Ignore(_) => return true,
                Match::Whitelist(_) => return false,
                Match::None => {}
            }
        }
        match self.ignored(path, is_dir) {
            Match::Ignore(_) => return true,
            Match::Whitelist(_) => return false,
            Match::None => {}
        }
        self.hidden && path.file_name().is_some_and(|n| n.to_string_lossy().starts_with('.'))
    }
    fn ignored(&self, path: &Path, is_dir: bool) -> Match<()> {
        let abs = std::path::absolute(path).unwrap_or(path.to_path_buf());
        let any_git = !self.require_git || abs.ancestors().skip(1).any(|a| a.join(".git").exists());
        let (mut custom, mut git, mut excl) = (Match::None, Match::None, Match::None);
        let mut saw_git = false;
        for dir in abs.ancestors().skip(1) {
            if self.ignore && custom.is_none() {
                custom = gitignore::Gitignore::read(&dir.join(".ignore"), dir).matched(&abs, is_dir).map(|_| ());
            }
            if any_git && !saw_git {
                if self.git_ignore && git.is_none() {
                    git = gitignore::Gitignore::read(&dir.join(".gitignore"), dir).matched(&abs, is_dir).map(|_| ());
                }
                if self.git_exclude && excl.is_none() {
                    excl = gitignore::Gitignore::read(&dir.join(".git/info/exclude"), dir)
                        .matched(&abs, is_dir)
                        .map(|_| ());
                }
            }
            saw_git = saw_git || dir.join(".git").exists();
        }
        let mut global = Match::None;
        if any_git && self.git_global {
            let conf = std::env::var_os("XDG_CONFIG_HOME")
                .map(PathBuf::from)
                .or_else(|| std::env::var_os("HOME").map(|h| PathBuf::from(h).join(".config")));
            if let Some(c) = conf {
                global = gitignore::Gitignore::read(&c.join("git/ignore"), Path::new("/")).matched(&abs, is_dir).map(|_| ());
            }
        }
        for m in [custom, git, excl, global] {
            if !m.is_none() {
                return m;
            }
        }
        Match::None
    }
}

pub struct Walk(std::vec::IntoIter<Result<DirEntry, Error>>);
impl Walk {
    pub fn new<P: AsRef<Path>>(p: P) -> Walk {
        WalkBuilder::new(p).build()
    }
}
impl Iterator for Walk {
    type Item = Result<DirEntry, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next()
    }
}

pub struct WalkParallel(WalkBuilder);
impl WalkParallel {
    pub fn visit(self, b: &mut dyn ParallelVisitorBuilder<'_>) {
        let n = VISITORS.load(std::sync::atomic::Ordering::SeqCst).max(1);
        let mut vs: Vec<_> = (0..n).map(|_| b.build()).collect();
        let mut i = 0;
        self.0.run(&mut |e| {
            i += 1;
            vs[i % n].visit(e)
        });
    }
    pub fn run<'s, F>(self, mut mk: F)
    where
        F: FnMut() -> Box<dyn FnMut(Result<DirEntry, Error>) -> WalkState + Send + 's>,
    {
        let mut f = mk();
        self.0.run(&mut |e| f(e));
    }
}
