//! Stand-in for the `git2` crate (whose sources are not available here): the
//! part jarl uses, over the `git` program.
use std::fmt;
use std::path::{Path, PathBuf};
use std::process::Command;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl Error {
    pub fn message(&self) -> &str {
        &self.0
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Status(u32);
impl Status {
    pub const CURRENT: Status = Status(0);
    pub const INDEX_NEW: Status = Status(1);
    pub const INDEX_MODIFIED: Status = Status(2);
    pub const INDEX_DELETED: Status = Status(4);
    pub const WT_NEW: Status = Status(128);
    pub const WT_MODIFIED: Status = Status(256);
    pub const WT_DELETED: Status = Status(512);
    pub const INDEX_RENAMED: Status = Status(8);
    pub const INDEX_TYPECHANGE: Status = Status(16);
    pub const WT_TYPECHANGE: Status = Status(1024);
    pub const WT_RENAMED: Status = Status(2048);
    pub const IGNORED: Status = Status(1 << 14);
    pub const CONFLICTED: Status = Status(1 << 15);
    pub fn is_empty(&self) -> bool {
        self.0 == 0
    }
    pub fn contains(&self, o: Status) -> bool {
        self.0 & o.0 == o.0
    }
    pub fn intersects(&self, o: Status) -> bool {
        self.0 & o.0 != 0
    }
    pub fn is_wt_new(&self) -> bool {
        self.contains(Status::WT_NEW)
    }
    pub fn is_ignored(&self) -> bool {
        self.contains(Status::IGNORED)
    }
}

#[derive(Default)]
pub struct StatusOptions {
    ignored: bool,
    untracked: bool,
    recurse: bool,
}
impl StatusOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn include_ignored(&mut self, v: bool) -> &mut Self {
        self.ignored = v;
        self
    }
    pub fn include_untracked(&mut self, v: bool) -> &mut Self {
        self.untracked = v;
        self
    }
    pub fn recurse_untracked_dirs(&mut self, v: bool) -> &mut Self {
        self.recurse = v;
        self
    }
}
pub struct Statuses(Vec<(String, Status)>);
pub struct StatusEntry<'a>(&'a str, Status);
impl<'a> StatusEntry<'a> {
    pub fn path(&self) -> Option<&str> {
        Some(self.0)
    }
    pub fn status(&self) -> Status {
        self.1
    }
}
impl Statuses {
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn iter(&self) -> impl Iterator<Item = StatusEntry<'_>> {
        self.0.iter().map(|(p, s)| StatusEntry(p, *s))
    }
    pub fn get(&self, i: usize) -> Option<StatusEntry<'_>> {
        self.0.get(i).map(|(p, s)| StatusEntry(p, *s))
    }
}

pub struct Repository {
    /// The git directory.
    dir: PathBuf,
    work: PathBuf,
}
fn git(dir: &Path, args: &[&str]) -> Result<Vec<u8>, Error> {
    let o = Command::new("git")
        .args(["-c", "core.quotepath=off", "-c", "safe.directory=*"])
        .args(args)
        .current_dir(dir)
        .env_remove("GIT_DIR")
        .env_remove("GIT_WORK_TREE")
        .output()
        .map_err(|e| Error(e.to_string()))?;
    if !o.status.success() {
        return Err(Error(String::from_utf8_lossy(&o.stderr).into_owned()));
    }
    Ok(o.stdout)
}
impl Repository {
    pub fn init<P: AsRef<Path>>(path: P) -> Result<Repository, Error> {
        let p = path.as_ref();
        std::fs::create_dir_all(p).map_err(|e| Error(e.to_string()))?;
        git(p, &["init", "-q"])?;
        Self::open(p)
    }
    pub fn open<P: AsRef<Path>>(path: P) -> Result<Repository, Error> {
        let p = path.as_ref().canonicalize().map_err(|e| Error(e.to_string()))?;
        let no = || Error("not a repository".into());
        if p.join("HEAD").is_file() && p.join("objects").is_dir() {
            let work = p.parent().ok_or_else(no)?.to_path_buf();
            return Ok(Repository { dir: p, work });
        }
        let mut g = p.join(".git");
        // A worktree, a submodule or a separate git directory
        if g.is_file() {
            let t = std::fs::read_to_string(&g).map_err(|e| Error(e.to_string()))?;
            g = p.join(t.trim_end().strip_prefix("gitdir: ").ok_or_else(no)?).canonicalize().map_err(|e| Error(e.to_string()))?;
        }
        if g.join("HEAD").is_file() {
            Ok(Repository { dir: g, work: p })
        } else {
            Err(no())
        }
    }
    pub fn discover<P: AsRef<Path>>(path: P) -> Result<Repository, Error> {
        let p = path.as_ref().canonicalize().map_err(|e| Error(format!("failed to resolve path: {e}")))?;
        for a in p.ancestors() {
            if a.is_dir() {
                if let Ok(r) = Self::open(a) {
                    return Ok(r);
                }
            }
        }
        Err(Error("could not find repository".into()))
    }
    /// The `.git` directory (with a trailing separator, as in libgit2).
    pub fn path(&self) -> &Path {
        &self.dir
    }
    pub fn workdir(&self) -> Option<&Path> {
        Some(&self.work)
    }
    pub fn is_bare(&self) -> bool {
        false
    }
    pub fn statuses(&self, o: Option<&mut StatusOptions>) -> Result<Statuses, Error> {
        let d = StatusOptions { ignored: true, untracked: true, recurse: true };
        let o = o.map_or(d, |o| StatusOptions { ..*o });
        let u = match (o.untracked, o.recurse) {
            (false, _) => "--untracked-files=no",
            (true, false) => "--untracked-files=normal",
            (true, true) => "--untracked-files=all",
        };
        let ig = if o.ignored { "--ignored=traditional" } else { "--ignored=no" };
        let out = git(self.workdir().unwrap(), &["status", "--porcelain", "-z", "--no-renames", u, ig])?;
        let out = String::from_utf8_lossy(&out).into_owned();
        let v = out
            .split('\0')
            .filter(|e| e.len() > 3)
            .map(|e| {
                let c: Vec<char> = e[..2].chars().collect();
                let s = match (c[0], c[1]) {
                    ('?', _) => Status::WT_NEW,
                    ('!', _) => Status::IGNORED,
                    ('U', _) | (_, 'U') | ('A', 'A') | ('D', 'D') => Status::CONFLICTED,
                    (x, y) => Status(
                        match x {
                            'A' => 1,
                            'M' => 2,
                            'D' => 4,
                            'T' => 16,
                            _ => 0,
                        } | match y {
                            'M' => 256,
                            'D' => 512,
                            'T' => 1024,
                            _ => 0,
                        },
                    ),
                };
                (e[3..].to_string(), s)
            })
            .collect();
        Ok(Statuses(v))
    }
    /// Not in git2: stages `files` and commits (used by the tests' helper).
    pub fn stand_in_commit(&self, files: &[&str]) -> Result<(), Error> {
        let w = self.workdir().unwrap().to_path_buf();
        let mut a = vec!["add", "--"];
        a.extend(files);
        git(&w, &a)?;
        git(&w, &["-c", "user.name=x", "-c", "user.email=x@x", "commit", "-q", "-m", "x"])?;
        Ok(())
    }
}

pub struct Index(PathBuf);
impl Index {
    pub fn add_path(&mut self, p: &Path) -> Result<(), Error> {
        git(&self.0, &["add", "--", &p.to_string_lossy()]).map(drop)
    }
    pub fn write(&mut self) -> Result<(), Error> {
        Ok(())
    }
    pub fn write_tree(&mut self) -> Result<Oid, Error> {
        let o = git(&self.0, &["write-tree"])?;
        Ok(Oid(String::from_utf8_lossy(&o).trim().to_string()))
    }
}
#[derive(Clone, Debug)]
pub struct Oid(String);
pub struct Tree(String);
pub struct Commit(String);
pub struct Signature;
impl Signature {
    pub fn now(_: &str, _: &str) -> Result<Signature, Error> {
        Ok(Signature)
    }
}
impl Repository {
    pub fn index(&self) -> Result<Index, Error> {
        Ok(Index(self.workdir().unwrap().to_path_buf()))
    }
    pub fn find_tree(&self, o: Oid) -> Result<Tree, Error> {
        Ok(Tree(o.0))
    }
    pub fn commit(&self, r: Option<&str>, _: &Signature, _: &Signature, msg: &str, t: &Tree, parents: &[&Commit]) -> Result<Oid, Error> {
        let w = self.workdir().unwrap().to_path_buf();
        let mut a = vec!["-c", "user.name=x", "-c", "user.email=x@x", "commit-tree", "-m", msg, &t.0];
        for p in parents {
            a.extend(["-p", &p.0]);
        }
        let o = git(&w, &a)?;
        let id = String::from_utf8_lossy(&o).trim().to_string();
        if let Some(r) = r {
            git(&w, &["update-ref", r, &id])?;
        }
        Ok(Oid(id))
    }
}
