use crate::{Error, Match};
use std::path::{Path, PathBuf};

#[derive(Debug, Clone)]
pub struct Glob {
    original: String,
    actual: String,
    whitelist: bool,
    only_dir: bool,
}
impl Glob {
    pub fn original(&self) -> &str {
        &self.original
    }
    pub fn actual(&self) -> &str {
        &self.actual
    }
    pub fn is_whitelist(&self) -> bool {
        self.whitelist
    }
    pub fn is_only_dir(&self) -> bool {
        self.only_dir
    }
}

#[derive(Debug, Clone)]
pub struct Gitignore {
    root: PathBuf,
    globs: Vec<Glob>,
}
impl Gitignore {
    pub fn empty() -> Self {
        Gitignore { root: PathBuf::new(), globs: vec![] }
    }
    pub fn is_empty(&self) -> bool {
        self.globs.is_empty()
    }
    pub(crate) fn read(file: &Path, root: &Path) -> Self {
        let mut g = Gitignore { root: root.to_path_buf(), globs: vec![] };
        if let Ok(t) = std::fs::read_to_string(file) {
            for l in t.lines() {
                let _ = g.add_line(l);
            }
        }
        g
    }
    pub(crate) fn new_at(root: &Path) -> Self {
        let root = root.strip_prefix("./").unwrap_or(root);
        Gitignore { root: root.to_path_buf(), globs: vec![] }
    }
    pub fn num_ignores(&self) -> u64 {
        self.globs.iter().filter(|g| !g.whitelist).count() as u64
    }
    pub fn num_whitelists(&self) -> u64 {
        self.globs.iter().filter(|g| g.whitelist).count() as u64
    }
    pub(crate) fn add_line(&mut self, line: &str) -> Result<(), Error> {
        if line.starts_with('#') {
            return Ok(());
        }
        let mut l = if line.ends_with("\\ ") { line } else { line.trim_end() };
        if l.is_empty() {
            return Ok(());
        }
        let mut g = Glob { original: line.to_string(), actual: String::new(), whitelist: false, only_dir: false };
        let mut absolute = false;
        if l.starts_with("\\!") || l.starts_with("\\#") {
            l = &l[1..];
            absolute = l.starts_with('/');
        } else {
            if let Some(r) = l.strip_prefix('!') {
                g.whitelist = true;
                l = r;
            }
            if let Some(r) = l.strip_prefix('/') {
                l = r;
                absolute = true;
            }
        }
        if let Some(r) = l.strip_suffix('/') {
            g.only_dir = true;
            l = r.strip_suffix('\\').unwrap_or(r);
        }
        g.actual = l.to_string();
        if !absolute && !l.contains('/') && !g.actual.starts_with("**/") {
            g.actual = format!("**/{}", g.actual);
        }
        if g.actual.ends_with("/**") {
            g.actual = format!("{}/*", g.actual);
        }
        valid(&g.actual).map_err(|err| Error::Glob { glob: Some(g.original.clone()), err })?;
        self.globs.push(g);
        Ok(())
    }
    pub fn matched<P: AsRef<Path>>(&self, path: P, is_dir: bool) -> Match<&Glob> {
        if self.is_empty() {
            return Match::None;
        }
        let p = path.as_ref();
        let p = p.strip_prefix("./").unwrap_or(p);
        let mut s = p.to_string_lossy().into_owned();
        // A lone `.` as the root stands for the working directory.
        if self.root != Path::new(".") && p.file_name().map(|f| f != p.as_os_str()).unwrap_or(true) {
            if let Ok(r) = p.strip_prefix(&self.root) {
                s = r.to_string_lossy().into_owned();
            }
        }
        let s = s.strip_prefix('/').unwrap_or(&s).to_string();
        for g in self.globs.iter().rev() {
            if g.only_dir && !is_dir {
                continue;
            }
            if glob_match(&g.actual, &s) {
                return if g.whitelist { Match::Whitelist(g) } else { Match::Ignore(g) };
            }
        }
        Match::None
    }
}

fn valid(glob: &str) -> Result<(), String> {
    let c: Vec<char> = glob.chars().collect();
    let mut i = 0;
    let mut depth = 0;
    while i < c.len() {
        match c[i] {
            '\\' => {
                i += 1;
                if i >= c.len() {
                    return Err("dangling '\\'".into());
                }
            }
            '[' => {
                let mut j = i + 1;
                if matches!(c.get(j), Some('!' | '^')) {
                    j += 1;
                }
                if c.get(j) == Some(&']') {
                    j += 1;
                }
                while j < c.len() && c[j] != ']' {
                    j += 1;
                }
                if j >= c.len() {
                    return Err("unclosed character class; missing ']'".into());
                }
                i = j;
            }
            '{' => depth += 1,
            '}' => {
                depth -= 1;
                if depth < 0 {
                    return Err("unopened alternate group; missing '{'".into());
                }
            }
            _ => {}
        }
        i += 1;
    }
    if depth > 0 {
        return Err("unclosed alternate group; missing '}'".into());
    }
    Ok(())
}

/// A glob against a whole path; `*` and `?` do not match a separator.
pub fn glob_match(glob: &str, path: &str) -> bool {
    expand(glob).iter().any(|g| {
        let g: Vec<char> = g.chars().collect();
        let p: Vec<char> = path.chars().collect();
        m(&g, 0, &p, 0)
    })
}

/// Expands `{a,b}`.
fn expand(g: &str) -> Vec<String> {
    let c: Vec<char> = g.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\\' {
            i += 2;
            continue;
        }
        if c[i] == '{' {
            let mut parts = vec![String::new()];
            let mut depth = 1;
            let mut j = i + 1;
            while j < c.len() {
                match c[j] {
                    '\\' => {
                        parts.last_mut().unwrap().push(c[j]);
                        j += 1;
                        if j < c.len() {
                            parts.last_mut().unwrap().push(c[j]);
                        }
                        j += 1;
                        continue;
                    }
                    '{' => depth += 1,
                    '}' => {
                        depth -= 1;
                        if depth == 0 {
                            break;
                        }
                    }
                    ',' if depth == 1 => {
                        parts.push(String::new());
                        j += 1;
                        continue;
                    }
                    _ => {}
                }
                parts.last_mut().unwrap().push(c[j]);
                j += 1;
            }
            let pre: String = c[..i].iter().collect();
            let post: String = c[(j + 1).min(c.len())..].iter().collect();
            return parts.iter().flat_map(|p| expand(&format!("{pre}{p}{post}"))).collect();
        }
        i += 1;
    }
    vec![g.to_string()]
}

fn m(g: &[char], i: usize, p: &[char], j: usize) -> bool {
    let at = |s: &str, k: usize| s.chars().enumerate().all(|(n, c)| g.get(k + n) == Some(&c));
    // `**/` at the start: any number of leading directories.
    if i == 0 && at("**/", 0) {
        let mut k = i;
        while at("**/", k) {
            k += 3;
        }
        if m(g, k, p, j) {
            return true;
        }
        if p.get(j) == Some(&'/') && m(g, k, p, j + 1) {
            return true;
        }
        return (j..p.len()).any(|n| p[n] == '/' && m(g, k, p, n + 1));
    }
    if i == 0 && g.len() == 2 && at("**", 0) {
        return true;
    }
    if i == g.len() {
        return j == p.len();
    }
    // `/**/` in the middle; `/**` at the end.
    if at("/**/", i) {
        if p.get(j) != Some(&'/') {
            return false;
        }
        let mut k = i + 4;
        while at("**/", k) {
            k += 3;
        }
        return (j..p.len()).any(|n| p[n] == '/' && m(g, k, p, n + 1));
    }
    if at("/**", i) && i + 3 == g.len() {
        return p.get(j) == Some(&'/');
    }
    match g[i] {
        '*' => {
            let mut k = i;
            while g.get(k) == Some(&'*') {
                k += 1;
            }
            let mut n = j;
            loop {
                if m2(g, k, p, n) {
                    return true;
                }
                if n >= p.len() || p[n] == '/' {
                    return false;
                }
                n += 1;
            }
        }
        '?' => j < p.len() && p[j] != '/' && m2(g, i + 1, p, j + 1),
        '[' => {
            let Some(&c) = p.get(j) else { return false };
            let mut k = i + 1;
            let mut neg = false;
            if matches!(g.get(k), Some('!' | '^')) {
                neg = true;
                k += 1;
            }
            let mut hit = false;
            let mut first = true;
            while k < g.len() && (first || g[k] != ']') {
                first = false;
                if g.get(k + 1) == Some(&'-') && g.get(k + 2).is_some_and(|x| *x != ']') {
                    hit |= g[k] <= c && c <= g[k + 2];
                    k += 3;
                } else {
                    hit |= g[k] == c;
                    k += 1;
                }
            }
            c != '/' && hit != neg && m2(g, k + 1, p, j + 1)
        }
        '\\' if i + 1 < g.len() => p.get(j) == Some(&g[i + 1]) && m2(g, i + 2, p, j + 1),
        c => p.get(j) == Some(&c) && m2(g, i + 1, p, j + 1),
    }
}
fn m2(g: &[char], i: usize, p: &[char], j: usize) -> bool {
    if i == g.len() {
        return j == p.len();
    }
    m(g, i, p, j)
}
