//! Projects on disk: P03 which configuration applies, P04 which files are checked,
//! E05 the same in an editor.
use checks2::editor::*;
use checks2::files::*;
use checks2::*;
use mcx::{json, Check, Value};
use std::collections::BTreeMap;
use std::path::Path;

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "P03" => p03(),
        "P04" => p04(),
        "E05" => e05(),
        _ => {
            eprintln!("project P03 P04 E05");
            std::process::exit(2)
        }
    }
}

const RULES: &[(&str, &str)] = &[
    ("any_is_na", "any(is.na(x))"),
    ("any_duplicated", "any(duplicated(x))"),
    ("class_equals", "if (class(x) == 'a') 1"),
    ("which_grepl", "which(grepl('a', x))"),
    ("equals_na", "x == NA"),
    ("download_file", "download.file(x)"),
    ("browser", "browser()"),
    ("true_false_symbol", "T"),
    ("expect_length", "expect_equal(length(x), 1)"),
    ("assignment", "x = 1"),
];
fn all_lines() -> String {
    RULES.iter().map(|r| format!("{}\n", r.1)).collect()
}
/// The rules reported for each file.
type Report = BTreeMap<String, Vec<String>>;
fn report(r: &cli::Ran) -> Result<Report, String> {
    if r.out.contains("No R files found under the given path(s)") {
        return Ok(Report::new());
    }
    let v: Value = serde_json::from_str(&r.out).map_err(|e| format!("{e}: {}{}", r.out, r.err))?;
    if v["errors"].as_array().is_none_or(|e| !e.is_empty()) {
        return Err(format!("errors: {}", v["errors"]));
    }
    let mut m = Report::new();
    for d in v["diagnostics"].as_array().ok_or("no diagnostics")? {
        m.entry(d["filename"].as_str().unwrap().replace('\\', "/")).or_default().push(d["message"]["name"].as_str().unwrap().into());
    }
    for v in m.values_mut() {
        v.sort();
    }
    Ok(m)
}

struct Tree {
    scratch: Scratch,
    files: Vec<&'static str>,
    /// The directory of the project that is the user's home directory, if any.
    inside: Option<&'static str>,
}
impl Tree {
    fn new(scratch: &Scratch, files: &[&'static str]) -> Tree {
        Tree::with_text(scratch, files, &all_lines())
    }
    fn with_text(scratch: &Scratch, files: &[&'static str], lines: &str) -> Tree {
        let s = scratch.sub();
        std::fs::create_dir_all(s.dir.join("home/.config/jarl")).unwrap();
        for f in files {
            let p = s.dir.join("root").join(f);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            let text = if f.ends_with("md") { format!("```{{r}}\n{lines}```\n") } else { lines.to_string() };
            std::fs::write(p, text).unwrap();
        }
        Tree { scratch: s, files: files.to_vec(), inside: None }
    }
    fn root(&self) -> std::path::PathBuf {
        self.scratch.dir.join("root")
    }
    fn home(&self) -> std::path::PathBuf {
        match self.inside { Some(d) => self.root().join(d), None => self.scratch.dir.join("home") }
    }
    fn configure(&self, confs: &[Conf]) {
        let mut dirs: Vec<_> = self.files.iter().map(|f| self.root().join(parent(f))).collect();
        dirs.push(self.home().join(".config/jarl"));
        for d in dirs {
            for n in ["jarl.toml", ".jarl.toml"] {
                let _ = std::fs::remove_file(d.join(n));
            }
        }
        for c in confs {
            c.write(&self.root(), &self.home());
        }
    }
    /// What is reported for each file when `jarl check ARGS` is run in a directory of the tree.
    fn run(&self, cwd: &str, args: &[String], flags: &[&str]) -> Result<Report, String> {
        let mut a = vec!["check"];
        a.extend(args.iter().map(String::as_str));
        a.extend(["--output-format", "json"]);
        a.extend(flags);
        let m = report(&cli::run_home(&self.root().join(cwd), &self.home(), &a))?;
        let root = format!("{}/", self.root().display());
        Ok(m.into_iter().map(|(k, v)| (match k.strip_prefix(&root) { Some(k) => k.to_string(), None => join(cwd, &k) }, v)).collect())
    }
    /// The arguments, with `@` for the root's path.
    fn args(&self, args: &str) -> Vec<String> {
        args.split(' ').map(|a| a.replace('@', &self.root().display().to_string())).collect()
    }
    /// Is a file visible from one of the arguments, i.e. not hidden below it?
    fn visible(&self, cwd: &str, args: &str, file: &str) -> bool {
        args.split(' ').map(|a| match a.strip_prefix('@') { Some(a) => join("", a), None => join(cwd, a) }).any(|t| below(&t, file).is_some_and(|r| !hidden(r)))
    }
    /// Which files do the arguments mean, and was the file given by name?
    fn meant(&self, cwd: &str, args: &str) -> Vec<(&'static str, bool)> {
        let mut out = vec![];
        for f in &self.files {
            let targets: Vec<String> = args.split(' ').map(|a| match a.strip_prefix('@') { Some(a) => join("", a), None => join(cwd, a) }).collect();
            if targets.iter().any(|t| t == f) {
                out.push((*f, true));
            } else if targets.iter().any(|t| below(t, f).is_some()) {
                out.push((*f, false));
            }
        }
        out
    }
}

// ---------------------------------------------------------------- P03
fn p03() {
    let c = Check::new("P03", "model_checking");
    c.rule("for every way to place jarl.toml and .jarl.toml in the directories of a project and in the user's configuration directory, every working directory and every way to name the files: each file is checked with the nearest configuration and with no other");
    let scratch = Scratch::new("P03");
    scratch.enter();
    const FILES: &[&str] = &["a.R", "sub/a.R", "sub/deep/a.R", "other/a.R"];
    const SITES: &[Option<&str>] = &[Some(""), Some("sub"), Some("sub/deep"), Some("other"), None];
    let sets: Vec<(&str, &str)> = [
        ("", "."), ("", "sub"), ("", "sub other"), ("", "other sub/deep"), ("", "a.R sub/a.R"), ("", "sub/deep/a.R other/a.R a.R"), ("", "other/a.R sub/a.R sub/deep"), ("", "@"), ("", "sub a.R"), ("", "sub/deep/a.R sub/a.R"),
        ("sub", "."), ("sub", ".."), ("sub", "deep"), ("sub", "../other a.R"), ("sub", "@/other @/sub"), ("sub/deep", "a.R"), ("sub/deep", "../.."), ("other", "../sub/deep/a.R"),
        ("", "sub/deep ."), ("", "other ."), ("", "sub . other"), ("", ". sub/deep"), ("sub", "../other .."),
    ].to_vec();
    let fallback: Vec<String> = {
        let t = Tree::new(&scratch, FILES);
        t.run("", &t.args("a.R"), &[]).unwrap().remove("a.R").unwrap_or_default()
    };
    let judge = |t: &Tree, confs: &[Conf], cwd: &str, args: &str| {
        let got = match t.run(cwd, &t.args(args), &[]) {
            Ok(m) => m,
            Err(e) => return c.violation("error", format!("in /{cwd}: jarl check {args}: {e}\n{confs:?}"), replay(confs, cwd, args, t.inside)),
        };
        c.eval(1);
        c.nontriv((confs.len() > 1) as u64);
        c.outcome(match t.inside { Some("") => "project is the home directory", Some(_) => "home directory in the project", None => "project elsewhere" }, 1);
        let mut want = Report::new();
        for (f, _) in t.meant(cwd, args) {
            let rules = nearest(confs, f).map_or(fallback.clone(), |c| c.select.iter().map(|s| s.to_string()).collect());
            want.insert(f.to_string(), rules);
        }
        if got != want {
            let places: Vec<_> = confs.iter().map(|c| (c.dir, c.dot, &c.select)).collect();
            let user = confs.iter().any(|c| c.dir.is_none());
            c.violation(if user { "user" } else { "nearest" }, format!("in /{cwd}: jarl check {args} reports {got:?} instead of {want:?} with {places:?}"), replay(confs, cwd, args, t.inside));
        }
    };
    fn replay(confs: &[Conf], cwd: &str, args: &str, inside: Option<&str>) -> Value {
        let v: Vec<Value> = confs.iter().map(|c| json!([SITES.iter().position(|s| *s == c.dir), c.dot])).collect();
        json!({"confs": v, "cwd": cwd, "args": args, "inside": inside})
    }
    let conf = |site: usize, dot: bool| Conf { dir: SITES[site], dot, select: vec![RULES[site * 2 + dot as usize].0], ..Conf::default() };
    if let Some(r) = c.replay() {
        let mut t = Tree::new(&scratch, FILES);
        t.inside = [Some(""), Some("sub"), None].into_iter().find(|d| json!(d) == r["inside"]).flatten();
        let confs: Vec<Conf> = r["confs"].as_array().unwrap().iter().map(|v| conf(v[0].as_u64().unwrap() as usize, v[1] == json!(true))).collect();
        t.configure(&confs);
        judge(&t, &confs, r["cwd"].as_str().unwrap(), r["args"].as_str().unwrap());
        c.finish();
    }
    // none, jarl.toml, .jarl.toml, both
    let n = 4usize.pow(SITES.len() as u32);
    c.par(n as u64, |i| {
        let mut confs = vec![];
        for s in 0..SITES.len() {
            let k = (i as usize) / 4usize.pow(s as u32) % 4;
            // Both files together only once in quick mode
            if k == 3 && !c.thorough() && i as usize != 3 * 4usize.pow(s as u32) && i as usize != n - 1 {
                return;
            }
            if k & 1 == 1 {
                confs.push(conf(s, false));
            }
            if k & 2 == 2 {
                confs.push(conf(s, true));
            }
        }
        let mut t = Tree::new(&scratch, FILES);
        t.configure(&confs);
        for (cwd, args) in &sets {
            judge(&t, &confs, cwd, args);
        }
        // quick: without .jarl.toml
        if c.thorough() || confs.iter().all(|c| !c.dot) {
            for home in ["", "sub"] {
                // not two configurations in one place
                t.configure(&[]);
                t.inside = Some(home);
                t.configure(&confs);
                for (cwd, args) in &sets {
                    judge(&t, &confs, cwd, args);
                }
            }
        }
    });
    c.finish()
}

// ---------------------------------------------------------------- P04
const FILES: &[&str] = &[
    "a.R", "b.r", "gen-x.R", "gen-x.Rmd", "doc.qmd", "note.txt", ".hidden.R", "cpp11.R", "renv/x.R", "tests/t.R", "tests/a.R", "sub/a.R", "sub/gen-x.R", "sub/tests/t.R", "sub/renv/x.R", "sub/deep/a.R", "sub/deep/import-standalone-z.R",
    "sub/.git/x.R", "other/a.R", "other/cpp11.R", "other/gen-x.R", "mycpp11.R", "renv.R", "import-standalone.R", "revdep/x.R", "other/extendr-wrappers.R", "RcppExports.R", ".h/a.R", ".h/.z.R", ".h/renv/x.R", ".h/tests/t.R",
];
const EXCLUDES: &[&[&str]] = &[&[], &["a.R"], &["tests/"], &["sub/a.R"], &["gen-*.R"], &["sub/"], &["**/deep/*"], &["deep/a.R"], &["sub/**"], &["**/tests/**"], &["*.{Rmd,qmd}"], &["/a.R"], &["a.R", "other/"], &["/other/"], &["/sub/deep/", "/tests/"]];
const INCLUDES: &[&[&str]] = &[&[], &["a.R"], &["sub/"], &["*.Rmd"], &["**/*.{Rmd,qmd}"], &["sub/*.R"], &["tests/", "gen-*.R"], &["/sub/", "/a.R"]];

fn conf(dir: Option<&'static str>, e: usize, i: usize, d: Option<bool>) -> Conf {
    Conf { dir, select: vec!["any_is_na"], exclude: EXCLUDES[e].to_vec(), include: INCLUDES[i].to_vec(), default_exclude: d, ..Conf::default() }
}
fn cases(thorough: bool) -> Vec<Vec<Conf>> {
    let mut cases: Vec<Vec<Conf>> = vec![vec![]];
    // one configuration, everything
    for dir in [Some(""), Some("sub"), None] {
        for e in 0..EXCLUDES.len() {
            for i in 0..INCLUDES.len() {
                for d in [None, Some(false), Some(true)] {
                    if thorough || dir == Some("") || (i < 3 && d != Some(true)) {
                        cases.push(vec![conf(dir, e, i, d)]);
                    }
                }
            }
        }
    }
    // two
    let dirs = [Some(""), Some("sub"), Some("other"), None];
    for x in 0..dirs.len() {
        for y in x + 1..dirs.len() {
            for (a, b) in [(0, 1), (1, 0), (1, 2), (4, 0), (0, 4), (2, 3), (5, 0), (0, 9), (7, 0), (0, 7), (12, 0), (8, 1)] {
                for (i, j) in [(0, 0), (1, 0), (0, 1), (3, 0), (0, 2), (1, 3)] {
                    for (d, f) in [(None, None), (Some(false), None), (None, Some(false))] {
                        if thorough || i + j == 0 || (d, f) == (None, None) {
                            cases.push(vec![conf(dirs[x], a, i, d), conf(dirs[y], b, j, f)]);
                        }
                    }
                }
            }
        }
    }
    cases
}

fn p04() {
    let c = Check::new("P04", "exploration");
    c.rule("for every combination of include, exclude and default-exclude patterns in the configurations of a project, every working directory and every way to name the files: exactly the files that the configuration admits are checked, each once");
    c.assume("not judged because the documentation leaves it open: files given by name that the configuration excludes, what a configuration further up excludes from a directory with its own, paths in the user's own configuration");
    let scratch = Scratch::new("P04");
    scratch.enter();
    let sets: &[(&str, &str)] = &[("", "."), ("", "sub"), ("", "sub other"), ("", "a.R sub/a.R"), ("", "renv tests"), ("", "sub sub/deep"), ("", "a.R ."), ("sub", "."), ("sub", ".."), ("sub", "../other deep"), ("other", "@/sub @/tests"),
        ("", ".h"), ("", ". .h"), ("", ".h ."), ("", "sub/deep sub"), ("", ". other"), ("", ". a.R .hidden.R"), ("sub", "../.h .. ."), ("other", "@ @/.h/a.R @/sub/.git"),
    ];
    let judge = |confs: &[Conf]| {
        let t = Tree::new(&scratch, FILES);
        t.configure(confs);
        for (cwd, args) in sets {
            for flags in [&[][..], &["--no-default-exclude"]] {
                if flags.len() == 1 && confs.iter().any(|c| c.default_exclude == Some(true)) {
                    continue;
                }
                c.eval(1);
                let rep = || json!({"confs": confs.iter().map(|c| json!([c.dir, c.exclude, c.include, c.default_exclude])).collect::<Vec<_>>()});
                let head = || format!("in /{cwd}: jarl check {args} {flags:?} with {:?}", confs.iter().map(|c| (c.dir, c.text())).collect::<Vec<_>>());
                let got = match t.run(cwd, &t.args(args), flags) {
                    Ok(m) => m,
                    Err(e) => {
                        c.violation("error", format!("{}: {e}", head()), rep());
                        continue;
                    }
                };
                let meant = t.meant(cwd, args);
                let (mut yes, mut no) = (0, 0);
                for f in t.files.iter() {
                    let want = match meant.iter().find(|m| m.0 == *f) {
                        None => Says::No,
                        Some((_, true)) => given(confs, f, !flags.is_empty()),
                        Some((_, false)) if !t.visible(cwd, args, f) => Says::No,
                        Some((_, false)) => admitted(confs, f, !flags.is_empty()),
                    };
                    match want {
                        Says::Yes => yes += 1,
                        Says::No => no += 1,
                        Says::Open(w) => c.outcome(w, 1),
                    }
                    let is = got.get(*f);
                    let many = is.is_some_and(|v| { let mut w = v.clone(); w.dedup(); w.len() != v.len() });
                    if many {
                        c.violation("twice", format!("{}: {f} is checked more than once", head()), rep());
                    } else if want == Says::Yes && is.is_none() {
                        c.violation("missing", format!("{}: {f} is not checked", head()), rep());
                    } else if want == Says::No && is.is_some() {
                        c.violation("unwanted", format!("{}: {f} is checked", head()), rep());
                    }
                }
                c.nontriv((yes > 0 && no > 0) as u64);
                if let Some(f) = got.keys().find(|k| !t.files.contains(&k.as_str())) {
                    c.violation("unknown", format!("{}: {f} is reported", head()), rep());
                }
            }
        }
    };
    if let Some(r) = c.replay() {
        let find = |sets: &[&'static [&'static str]], v: &Value| sets.iter().position(|s| json!(s) == *v).unwrap();
        let dirs = [Some(""), Some("sub"), Some("other"), None];
        let confs: Vec<Conf> = r["confs"].as_array().unwrap().iter().map(|v| conf(*dirs.iter().find(|d| json!(d) == v[0]).unwrap(), find(EXCLUDES, &v[1]), find(INCLUDES, &v[2]), v[3].as_bool())).collect();
        judge(&confs);
        c.finish();
    }
    let cases = cases(c.thorough());
    c.par(cases.len() as u64, |i| judge(&cases[i as usize]));
    c.finish()
}

// ---------------------------------------------------------------- E05
fn e05() {
    let c = Check::new("E05", "model_checking");
    c.rule("for every placement of configurations and every combination of patterns of P03 and P04, every R file of the project is opened and saved in an editor that talks to the real server: it gets diagnostics exactly if the project's configuration admits the file, and from exactly the rules that configuration selects");
    c.assume("hidden files and files that are not R, R Markdown or Quarto are not opened; not judged are the cases that the documentation leaves open (see P04)");
    let scratch = Scratch::new("E05");
    scratch.enter();
    let home = scratch.dir.join("home");
    std::fs::create_dir_all(home.join(".config/jarl")).unwrap();
    for v in ["XDG_CONFIG_HOME", "XDG_CONFIG_DIRS"] {
        // No other thread runs yet
        unsafe { std::env::remove_var(v) };
    }
    unsafe { std::env::set_var("HOME", &home) };
    const LINES: &[(&str, &str)] = &[("any_is_na", "any(is.na(x))"), ("browser", "browser()"), ("equals_na", "x == NA"), ("which_grepl", "which(grepl('a', x))")];
    let lines: String = LINES.iter().map(|l| format!("{}\n", l.1)).collect();
    let base: Vec<&str> = LINES.iter().map(|l| l.0).collect();
    let sites = [Some(""), Some("sub"), Some("sub/deep"), Some("other"), None];
    let mut all = cases(c.thorough());
    // Which configuration applies
    for k in 0..3usize.pow(sites.len() as u32) {
        let mut v = vec![];
        for (s, dir) in sites.iter().enumerate() {
            match k / 3usize.pow(s as u32) % 3 {
                0 => {}
                n => v.push(Conf { dir: *dir, dot: n == 2, select: vec![base[(s + n) % 4]], ..Conf::default() }),
            }
        }
        all.push(v);
    }
    let judge = |confs: &[Conf]| {
        let local: Vec<Conf> = confs.iter().filter(|c| c.dir.is_some()).cloned().collect();
        let t = Tree::with_text(&scratch, FILES, &lines);
        t.configure(&local);
        let e = Editor::start(Enc::Utf16);
        for f in FILES {
            if f.split('/').any(|x| x.starts_with('.')) || f.ends_with(".txt") {
                continue;
            }
            let p = t.root().join(f);
            e.open(&p, &std::fs::read_to_string(&p).unwrap());
            let rep = || json!({"confs": confs.iter().map(|c| json!([c.dir, c.dot, c.select, c.exclude, c.include, c.default_exclude])).collect::<Vec<_>>()});
            let head = || format!("{f} in an editor with {:?}", confs.iter().map(|c| (c.dir, c.dot, c.text())).collect::<Vec<_>>());
            let got = match e.save(&p) {
                Ok(v) => v,
                Err(x) => {
                    c.violation("error", format!("{}: {x}", head()), rep());
                    break;
                }
            };
            // One rule per line
            let first = f.ends_with("md") as u64;
            let mut got: Vec<String> = got.iter().map(|d| LINES.get((range(&d["range"]).0.0 - first) as usize).map_or("?", |l| l.0).to_string()).collect();
            got.sort();
            got.dedup();
            c.eval(1);
            c.nontriv(!confs.is_empty() as u64);
            let rules: Vec<String> = match nearest(confs, f) {
                Some(c) => c.select.iter().map(|s| s.to_string()).collect(),
                None => base.iter().map(|s| s.to_string()).collect(),
            };
            match checked(confs, f, false) {
                Says::Open(w) => c.outcome(w, 1),
                Says::No if !got.is_empty() => c.violation("unwanted", format!("{}: {got:?} but the file is not one to check", head()), rep()),
                Says::Yes if got.is_empty() => c.violation("missing", format!("{}: no diagnostics instead of {rules:?}", head()), rep()),
                Says::Yes if got != rules => c.violation("rules", format!("{}: {got:?} instead of {rules:?}", head()), rep()),
                _ => {}
            }
        }
    };
    let users = |confs: &[Conf]| {
        for n in ["jarl.toml", ".jarl.toml"] {
            let _ = std::fs::remove_file(home.join(".config/jarl").join(n));
        }
        for c in confs {
            c.write(Path::new("/nonexistent"), &home);
        }
    };
    if let Some(r) = c.replay() {
        let leak = |v: &Value| -> Vec<&'static str> { v.as_array().unwrap().iter().map(|x| &*x.as_str().unwrap().to_string().leak()).collect() };
        let confs: Vec<Conf> = r["confs"]
            .as_array()
            .unwrap()
            .iter()
            .map(|v| Conf { dir: v[0].as_str().map(|d| &*d.to_string().leak()), dot: v[1] == json!(true), select: leak(&v[2]), exclude: leak(&v[3]), include: leak(&v[4]), default_exclude: v[5].as_bool() })
            .collect();
        users(&confs.iter().filter(|c| c.dir.is_none()).cloned().collect::<Vec<_>>());
        judge(&confs);
        c.finish();
    }
    // The user's own configuration is one per process: one after the other.
    let mut groups: Vec<(Vec<Conf>, Vec<Vec<Conf>>)> = vec![];
    for x in all {
        let user: Vec<Conf> = x.iter().filter(|c| c.dir.is_none()).cloned().collect();
        match groups.iter_mut().find(|g| g.0 == user) {
            Some(g) => g.1.push(x),
            None => groups.push((user, vec![x])),
        }
    }
    for (user, list) in &groups {
        users(user);
        c.par(list.len() as u64, |i| judge(&list[i as usize]));
    }
    c.finish()
}
