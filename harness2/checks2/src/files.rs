//! Which files are checked, and with which configuration: the documentation's
//! answer, on paths that are lists of names below a root.
use std::path::Path;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Conf {
    /// Its directory, "" for the root; `None` for the user's own.
    pub dir: Option<&'static str>,
    pub dot: bool,
    pub select: Vec<&'static str>,
    pub exclude: Vec<&'static str>,
    pub include: Vec<&'static str>,
    pub default_exclude: Option<bool>,
}
impl Conf {
    pub fn text(&self) -> String {
        let mut s = "[lint]\n".to_string();
        let list = |v: &[&str]| format!("{v:?}");
        if !self.select.is_empty() {
            s += &format!("select = {}\n", list(&self.select));
        }
        if !self.exclude.is_empty() {
            s += &format!("exclude = {}\n", list(&self.exclude));
        }
        if !self.include.is_empty() {
            s += &format!("include = {}\n", list(&self.include));
        }
        if let Some(b) = self.default_exclude {
            s += &format!("default-exclude = {b}\n");
        }
        s
    }
    pub fn write(&self, root: &Path, home: &Path) {
        let d = match self.dir {
            Some(d) => root.join(d),
            None => home.join(".config/jarl"),
        };
        std::fs::create_dir_all(&d).unwrap();
        std::fs::write(d.join(if self.dot { ".jarl.toml" } else { "jarl.toml" }), self.text()).unwrap();
    }
}
pub const DEFAULT: &[&str] = &[".git/", "renv/", "revdep/", "cpp11.R", "RcppExports.R", "extendr-wrappers.R", "import-standalone-*.R"];

pub fn below<'a>(dir: &str, path: &'a str) -> Option<&'a str> {
    if dir.is_empty() {
        return Some(path);
    }
    path.strip_prefix(dir)?.strip_prefix('/')
}
fn dir_of(path: &str) -> &str {
    path.rfind('/').map_or("", |i| &path[..i])
}
/// The configuration for a file: the nearest one above it, the user's own if there is none.
pub fn nearest<'a>(confs: &'a [Conf], path: &str) -> Option<&'a Conf> {
    confs
        .iter()
        .filter(|c| c.dir.is_some_and(|d| below(d, path).is_some()))
        .max_by_key(|c| (c.dir.unwrap().len(), !c.dot))
        .or_else(|| confs.iter().filter(|c| c.dir.is_none()).max_by_key(|c| !c.dot))
}

fn one(p: &[char], s: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some('*') => (0..=s.len()).any(|i| one(&p[1..], &s[i..])),
        Some('?') => !s.is_empty() && one(&p[1..], &s[1..]),
        Some('{') => {
            let e = p.iter().position(|c| *c == '}').expect("}");
            let inner: String = p[1..e].iter().collect();
            inner.split(',').any(|a| one(&a.chars().chain(p[e + 1..].iter().copied()).collect::<Vec<_>>(), s))
        }
        Some(c) => s.first() == Some(c) && one(&p[1..], &s[1..]),
    }
}
fn many(p: &[&str], s: &[&str]) -> bool {
    match p.first() {
        None => s.is_empty(),
        // everything inside
        Some(&"**") if p.len() == 1 => !s.is_empty(),
        Some(&"**") => (0..=s.len()).any(|i| many(&p[1..], &s[i..])),
        Some(x) => !s.is_empty() && one(&x.chars().collect::<Vec<_>>(), &s[0].chars().collect::<Vec<_>>()) && many(&p[1..], &s[1..]),
    }
}
/// Does a pattern (as in a `.gitignore`) match a file or one of its directories?
pub fn matches(pattern: &str, path: &str) -> bool {
    let (body, only_dir) = match pattern.strip_suffix('/') {
        Some(b) => (b, true),
        None => (pattern, false),
    };
    let anchored = body.contains('/');
    let mut p: Vec<&str> = body.strip_prefix('/').unwrap_or(body).split('/').collect();
    if !anchored {
        p.insert(0, "**");
    }
    let s: Vec<&str> = path.split('/').collect();
    (1..=s.len()).any(|n| !(only_dir && n == s.len()) && many(&p, &s[..n]))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Says {
    Yes,
    No,
    /// The documentation does not say.
    Open(&'static str),
}
/// Is a file below a directory that was given (or opened in an editor) checked?
pub fn checked(confs: &[Conf], path: &str, no_default_exclude: bool) -> Says {
    if hidden(path) {
        return Says::No;
    }
    admitted(confs, path, no_default_exclude)
}
pub fn hidden(path: &str) -> bool {
    path.split('/').any(|x| x.starts_with('.'))
}
/// The same for one that is found although it, or a directory above, is hidden.
pub fn admitted(confs: &[Conf], path: &str, no_default_exclude: bool) -> Says {
    let name = path.rsplit('/').next().unwrap();
    let ext = name.rsplit_once('.').filter(|(a, _)| !a.is_empty()).map_or("", |x| x.1);
    if !["R", "r", "Rmd", "rmd", "qmd", "Qmd"].contains(&ext) {
        return Says::No;
    }
    let conf = nearest(confs, path);
    let default = !no_default_exclude && conf.and_then(|c| c.default_exclude).unwrap_or(true);
    if default && DEFAULT.iter().any(|p| matches(p, path)) {
        return Says::No;
    }
    if let Some(c) = conf {
        let rel = match c.dir {
            Some(d) => below(d, path).unwrap(),
            None if c.exclude.iter().chain(&c.include).any(|p| p.contains('/')) => return Says::Open("paths in the user's own configuration"),
            None => path,
        };
        if c.exclude.iter().any(|p| matches(p, rel)) {
            return Says::No;
        }
        if !c.include.is_empty() {
            let inside = |p: &str| match p.strip_suffix('/') {
                Some(b) => below(b, rel).is_some(),
                None => matches(p, rel),
            };
            if !c.include.iter().any(|p| inside(p)) {
                if c.include.iter().any(|p| matches(p, rel)) || c.dir.is_none() {
                    return Says::Open("directories of that name further down in `include`");
                }
                return Says::No;
            }
        }
    }
    // A configuration further up
    for o in confs.iter().filter(|o| o.dir.is_some() && conf.is_some_and(|c| c.dir != o.dir)) {
        if let Some(rel) = below(o.dir.unwrap(), path) {
            if o.exclude.iter().any(|p| matches(p, rel)) {
                return Says::Open("what a configuration further up excludes from a directory with its own");
            }
        }
    }
    Says::Yes
}
/// Files that are given by name.
pub fn given(confs: &[Conf], path: &str, no_default_exclude: bool) -> Says {
    match admitted(confs, path, no_default_exclude) {
        Says::No => Says::Open("files given by name that would not be checked otherwise"),
        s => s,
    }
}
/// A path relative to the root, from a directory below it.
pub fn join(cwd: &str, arg: &str) -> String {
    let mut v: Vec<&str> = cwd.split('/').filter(|x| !x.is_empty()).collect();
    for x in arg.split('/') {
        match x {
            "." | "" => {}
            ".." => {
                v.pop();
            }
            x => v.push(x),
        }
    }
    v.join("/")
}
pub fn parent(path: &str) -> &str {
    dir_of(path)
}
