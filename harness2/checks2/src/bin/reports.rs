//! The command line program as a whole: P05 the version control gate, P06 the
//! formats of the report, P07 files do not affect each other, P12 colours and links, P13 what must
//! not matter: threads, logs, timing and the environment.
use checks2::*;
use mcx::{json, Check, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "P05" => p05(),
        "P06" => p06(),
        "P07" => p07(),
        "P12" => p12(),
        "P13" => p13(),
        _ => {
            eprintln!("reports P05 P06 P07 P12 P13");
            std::process::exit(2)
        }
    }
}
fn write(p: impl AsRef<Path>, text: impl AsRef<[u8]>) {
    std::fs::create_dir_all(p.as_ref().parent().unwrap()).unwrap();
    std::fs::write(p, text).unwrap();
}

// ---------------------------------------------------------------- files
struct File {
    name: &'static str,
    text: Vec<u8>,
    /// It cannot be checked.
    fails: bool,
}
fn many() -> String {
    (0..20).map(|i| if i % 3 == 0 { format!("any(is.na(x{i}))\n") } else { format!("any(duplicated(x{i})) ; y{i} = 1\n") }).collect()
}
fn files() -> Vec<File> {
    let f = |name, text: &str| File { name, text: text.into(), fails: false };
    let bad = |name, text: &[u8]| File { name, text: text.into(), fails: true };
    vec![
        f("clean.R", "x <- 1\n"),
        f("one.R", "any(is.na(x))\n"),
        f("two.R", "if (x == TRUE) 1\nany(duplicated(x)) ; any(is.na(y))\n"),
        f("wide.R", "'\u{e9}\u{1F600}'; any(is.na(x)) # \u{e9}\nany(is.na(\u{e9}))\n"),
        f("many.R", &many()),
        f("empty.R", ""),
        f("comment.R", "# nothing here"),
        bad("broken.R", b"any(is.na(x))\nx <- (\n"),
        bad("latin.R", b"any(is.na(x))\nx <- '\xe9'\n"),
        f("doc.Rmd", "---\ntitle: any(is.na(x))\n---\n\n\u{e9}\n\n```{r}\nany(is.na(x))\n```\n\n```{python}\nany(is.na(x))\n```\n"),
        f("doc.qmd", "```{r}\n#| label: a\nany(is.na(x))\n```\n\n  ```{r, b}\n  any(duplicated(x))\n  ```\n"),
        f("crlf.R", "x <- 1\r\nany(is.na(x))\r\n"),
        f("noeol.R", "any(is.na(x))"),
        f("unsafe.R", "if (all(x == TRUE)) 1\nsample(1:length(x))\nfor (i in 1:length(x)) i\n"),
        f("nofix.R", "browser()\nx <- function() {\n  return(1)\n  2\n}\n"),
        f("block.R", "any(\n  is.na(\n    x\n  )\n)\n\n\nany(is.na(x)) # jarl-ignore any_is_na: not here\n"),
        f("ignored.R", "# jarl-ignore any_is_na: why\nany(is.na(x))\n# jarl-ignore any_is_na: why\nx\n"),
        f("a b.R", "any(is.na(x))\n"),
        f("c,d.R", "any(is.na(x))\n"),
        f("e%f.R", "any(is.na(x))\n"),
        f("g:h.R", "any(is.na(x))\n"),
        f("\u{e9}.R", "any(is.na(x))\n"),
        f("sub/one.R", "any(duplicated(x))\n"),
        f("sub/sub/clean.R", "x\n"),
    ]
}
fn par(c: &Check, n: usize, name: impl Fn(usize) -> String + Sync, f: impl Fn(usize) + Sync) {
    c.par_named(n as u64, "case", |i| f(i as usize), |i| json!(name(i as usize)))
}
fn place(dir: &Path, files: &[File]) {
    for f in files {
        write(dir.join(f.name), &f.text);
    }
}

fn run_with(dir: &Path, args: &[&str], env: &[(&str, &str)]) -> cli::Ran {
    let o = Command::new(cli::jarl())
        .args(args)
        .current_dir(dir)
        .env_clear()
        .env("HOME", dir)
        .env("NO_COLOR", "1")
        .envs(env.iter().copied())
        .stdin(Stdio::null())
        .output()
        .expect("run jarl");
    cli::Ran { status: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into() }
}

// ---------------------------------------------------------------- formats
#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
struct Found {
    file: String,
    start: u64,
    end: u64,
    row: u64,
    col: u64,
    rule: String,
    message: String,
    fix: char,
}
struct Report {
    found: Vec<Found>,
    failed: Vec<String>,
    status: Option<i32>,
}
fn of_json(r: &cli::Ran) -> Result<Report, String> {
    let v: Value = serde_json::from_str(&r.out).map_err(|e| format!("the JSON output is not JSON: {e}: {:?} {:?}", r.out, r.err))?;
    let list = |k: &str| v[k].as_array().ok_or(format!("no {k}"));
    let mut found = vec![];
    for d in list("diagnostics")? {
        let s = |x: &Value| x.as_str().map(String::from).ok_or("not a string".to_string());
        let n = |x: &Value| x.as_u64().ok_or("not a number".to_string());
        let m = &d["message"];
        let rule = s(&m["name"])?;
        let body = s(&m["body"])?;
        let has = !d["fix"]["to_skip"].as_bool().unwrap_or(true) && !s(&d["fix"]["content"])?.is_empty();
        let status = jarl_core::rule_set::Rule::from_name(&rule).map(|r| r.fix_status());
        use jarl_core::rule_set::FixStatus::*;
        found.push(Found {
            file: s(&d["filename"])?,
            start: n(&d["range"][0])?,
            end: n(&d["range"][1])?,
            row: n(&d["location"]["row"])?,
            col: n(&d["location"]["column"])? + 1,
            fix: match status {
                Some(Safe) if has => 's',
                Some(Unsafe) if has => 'u',
                _ => '-',
            },
            message: match &m["suggestion"] {
                Value::Null => body,
                x => format!("{body} {}", s(x)?),
            },
            rule,
        });
    }
    let failed = list("errors")?.iter().map(|e| e["file"].as_str().unwrap_or("?").to_string()).collect();
    Ok(Report { found, failed, status: r.status })
}
fn escaped(s: &str, property: bool) -> String {
    s.chars()
        .map(|c| match c {
            '%' => "%25".into(),
            '\r' => "%0D".into(),
            '\n' => "%0A".into(),
            ':' if property => "%3A".into(),
            ',' if property => "%2C".into(),
            c => c.to_string(),
        })
        .collect()
}
impl Report {
    fn summary(&self) -> String {
        let n = self.found.len();
        if n == 0 {
            return if self.failed.is_empty() { "All checks passed!\n".into() } else { String::new() };
        }
        let s = self.found.iter().filter(|f| f.fix == 's').count();
        let u = self.found.iter().filter(|f| f.fix == 'u').count();
        let mut t = if n == 1 { "Found 1 error.\n".to_string() } else { format!("Found {n} errors.\n") };
        t += &match (s, u) {
            (0, 0) => String::new(),
            (s, 0) => format!("{s} fixable with the `--fix` option.\n"),
            (0, 1) => "1 fix is available with the `--fix --unsafe-fixes` option.\n".into(),
            (0, u) => format!("{u} fixes are available with the `--fix --unsafe-fixes` option.\n"),
            (s, u) => format!("{s} fixable with the `--fix` option ({u} hidden fix{} can be enabled with the `--unsafe-fixes` option).\n", if u == 1 { "" } else { "es" }),
        };
        if n > 15 {
            t += "More than 15 errors reported, use `--statistics` to get the count by rule.\n";
        }
        t
    }
    /// Is this what the program prints in that format?
    fn agrees(&self, format: &str, r: &cli::Ran) -> Result<(), String> {
        if r.status != self.status {
            return Err(format!("status {:?} with {format}, {:?} with JSON: {}", r.status, self.status, r.err));
        }
        let body = |want: String, rest: &dyn Fn(&str) -> Result<(), String>| match r.out.strip_prefix(&want) {
            Some(x) => rest(x),
            None => {
                let k = want.lines().zip(r.out.lines().chain([""])).find(|(a, b)| a != b);
                Err(format!("{format} differs from JSON: {k:?}"))
            }
        };
        // What follows the violations: the section's title and the summary
        let summary = |x: &str| {
            let x: String = x.lines().filter(|l| !l.is_empty() && !l.starts_with('\u{2500}')).map(|l| format!("{l}\n")).collect();
            if x == self.summary() {
                Ok(())
            } else {
                Err(format!("the summary with {format} is {x:?} and not {:?}", self.summary()))
            }
        };
        match format {
            "concise" => body(self.found.iter().map(|f| format!("{} [{}:{}] {} {}\n", f.file, f.row, f.col, f.rule, f.message)).collect(), &summary)?,
            "github" => body(
                self.found
                    .iter()
                    .map(|f| {
                        let (p, d) = (escaped(&f.file, true), escaped(&f.file, false));
                        let (r, c) = (f.row, f.col);
                        format!("::warning title=Jarl ({}),file={p},line={r},col={c}::{d}:{r}:{c} [{}] {}\n", f.rule, f.rule, escaped(&f.message, false))
                    })
                    .collect(),
                &|x| if x.is_empty() { Ok(()) } else { Err(format!("github: unexpected {x:?}")) },
            )?,
            "statistics" => {
                let mut m: BTreeMap<&str, (usize, bool)> = BTreeMap::new();
                for f in &self.found {
                    let e = m.entry(&f.rule).or_default();
                    e.0 += 1;
                    e.1 |= f.fix == 's';
                }
                let mut v: Vec<_> = m.into_iter().collect();
                v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
                let mut want: String = v.iter().map(|(n, (k, s))| format!("{k:>5} [{}] {n}\n", if *s { "*" } else { " " })).collect();
                if self.found.is_empty() {
                    want = if self.failed.is_empty() { "All checks passed!\n".into() } else { String::new() };
                } else {
                    want += "\nRules with `[*]` have an automatic fix.\n";
                }
                body(want, &|x| if x.is_empty() { Ok(()) } else { Err(format!("statistics: unexpected {x:?}")) })?
            }
            "full" => {
                let lines: Vec<&str> = r.out.split('\n').collect();
                let mut heads = vec![];
                let mut last = 0;
                for (i, l) in lines.iter().enumerate() {
                    if let Some(n) = l.strip_prefix("warning: ") {
                        let at = lines.get(i + 1).and_then(|l| l.split_once("--> ")).map_or("", |x| x.1);
                        // file:row:column
                        let (f, _) = at.rsplit_once(':').unwrap_or(("", ""));
                        let (f, row) = f.rsplit_once(':').unwrap_or(("", ""));
                        heads.push((n.to_string(), f.to_string(), row.to_string()));
                        last = i + 1;
                    }
                }
                let want: Vec<_> = self.found.iter().map(|f| (f.rule.clone(), f.file.clone(), f.row.to_string())).collect();
                if heads != want {
                    let k = want.iter().zip(heads.iter().map(Some).chain(std::iter::repeat(None))).find(|(a, b)| Some(*a) != *b);
                    return Err(format!("full differs from JSON: {} and {} violations, {k:?}", heads.len(), want.len()));
                }
                // every message is there, in order
                let mut rest = &r.out[..];
                for f in &self.found {
                    let words = |s: &str| s.split_whitespace().map(String::from).collect::<Vec<_>>();
                    let first = words(&f.message);
                    match first.iter().try_fold(rest, |r, w| r.find(w.as_str()).map(|i| &r[i + w.len()..])) {
                        Some(r) => rest = r,
                        None => return Err(format!("full does not give the message {:?}", f.message)),
                    }
                }
                let tail = lines[last..].iter().position(|l| l.starts_with('\u{2500}')).map(|i| lines[last + i..].join("\n")).unwrap_or_default();
                summary(&tail)?
            }
            _ => unreachable!(),
        }
        if format != "github" {
            let n = r.err.lines().filter(|l| l.starts_with("Error")).count();
            for f in &self.failed {
                if !r.err.contains(f.as_str()) {
                    return Err(format!("{format}: {f} cannot be checked and the error output does not say so: {:?}", r.err));
                }
            }
            if n != self.failed.len() {
                return Err(format!("{format}: {n} errors for {} files that cannot be checked", self.failed.len()));
            }
        }
        Ok(())
    }
}
const FORMATS: &[&str] = &["concise", "github", "full", "statistics"];
fn format_args(f: &str) -> Vec<&str> {
    if f == "statistics" {
        vec!["--statistics"]
    } else {
        vec!["--output-format", f]
    }
}

fn p06() {
    let c = Check::new("P06", "model_checking");
    c.rule("for all ordered lists of up to two (thorough: three) of 24 kinds of files, and for directories, whole trees and every expression of the rules' tests in surroundings: the report in JSON is valid, lists the files that cannot be read or parsed as errors and the violations of all others sorted by file and place; and the concise, GitHub and full formats list the same ones in the same order, the summary and --statistics count them, and the status is 255 if a file fails, else 1 if there are violations, else 0; and the same for what is left when fixing, where the files end up the same in every format");
    c.assume("GitHub's format does not show files that cannot be checked (an existing test says so); paths that do not exist are not judged");
    let all = files();
    let names: Vec<&str> = all.iter().map(|f| f.name).collect();
    let fails: BTreeSet<&str> = all.iter().filter(|f| f.fails).map(|f| f.name).collect();
    let base = Scratch::new("P06");
    base.enter();
    let tree = base.dir.join("tree");
    place(&tree, &all);
    // What each file violates, by the library
    let alone = |dir: &Path, paths: &[&str], opts: &[&str]| -> Result<Report, String> {
        let mut a = vec!["check"];
        a.extend(paths);
        a.extend(["--output-format", "json"]);
        a.extend(opts);
        of_json(&cli::run_in(dir, &a))
    };
    // Judges one run in all formats
    let judge = |dir: &Path, paths: &[&str], opts: &[&str]| -> Result<Report, String> {
        let r = alone(dir, paths, opts)?;
        let mut sorted = r.found.clone();
        sorted.sort_by(|a, b| (Path::new(&a.file), a.start, a.end).cmp(&(Path::new(&b.file), b.start, b.end)));
        let key = |v: &[Found]| v.iter().map(|f| (f.file.clone(), f.start, f.end)).collect::<Vec<_>>();
        if key(&sorted) != key(&r.found) {
            return Err("the violations are not sorted by file and place".into());
        }
        let want = if !r.failed.is_empty() { 255 } else { i32::from(!r.found.is_empty()) };
        if r.status != Some(want) {
            return Err(format!("status {:?} and not {want}", r.status));
        }
        for f in FORMATS {
            let mut a = vec!["check"];
            a.extend(paths);
            a.extend(format_args(f));
            a.extend(opts);
            r.agrees(f, &cli::run_in(dir, &a))?;
        }
        Ok(r)
    };
    let mut lists: Vec<Vec<usize>> = vec![];
    let n = names.len();
    for i in 0..n {
        lists.push(vec![i]);
        for j in 0..n {
            if i != j {
                lists.push(vec![i, j]);
                if c.thorough() {
                    lists.extend((0..n).filter(|k| *k != i && *k != j).map(|k| vec![i, j, k]));
                }
            }
        }
    }
    let sets: &[&[&str]] = &[&[], &["--select", "ALL"]];
    let singles: Vec<BTreeMap<usize, Vec<Found>>> = sets
        .iter()
        .map(|o| {
            (0..n)
                .map(|i| {
                    let r = alone(&tree, &[names[i]], o).unwrap_or(Report { found: vec![], failed: vec!["?".into()], status: None });
                    (i, r.found)
                })
                .collect()
        })
        .collect();
    let list_case = |l: &[usize], s: usize| -> Result<(), String> {
        let paths: Vec<&str> = l.iter().map(|i| names[*i]).collect();
        let r = judge(&tree, &paths, sets[s])?;
        let mut failed: Vec<&str> = r.failed.iter().map(|x| &x[..]).collect();
        failed.sort();
        let mut want: Vec<&str> = paths.iter().copied().filter(|p| fails.contains(p)).collect();
        want.sort();
        if failed != want {
            return Err(format!("{failed:?} are said to fail and not {want:?}"));
        }
        let mut want: Vec<Found> = l.iter().flat_map(|i| singles[s][i].clone()).collect();
        let mut got = r.found.clone();
        want.sort();
        got.sort();
        if want != got {
            return Err("the violations of the files together are not those of each alone".into());
        }
        Ok(())
    };
    if let Some(v) = c.replay() {
        let r = if v["list"].is_array() {
            let l: Vec<usize> = v["list"].as_array().unwrap().iter().map(|x| names.iter().position(|n| Some(*n) == x.as_str()).expect("file")).collect();
            list_case(&l, v["set"].as_u64().unwrap() as usize)
        } else {
            println!("not a single case: running everything");
            Ok(())
        };
        if let Err(e) = r {
            c.violation("replay", e, v.clone());
        }
        if v["list"].is_array() {
            c.finish();
        }
    }
    let total = lists.len() * sets.len();
    par(&c,
        total,
        |k| format!("{:?} {:?}", lists[k / sets.len()].iter().map(|i| names[*i]).collect::<Vec<_>>(), sets[k % sets.len()]),
        |k| {
            let (l, s) = (&lists[k / sets.len()], k % sets.len());
            c.eval(5);
            c.nontriv(5);
            let named: Vec<&str> = l.iter().map(|i| names[*i]).collect();
            if let Err(e) = list_case(l, s) {
                c.violation(&format!("list {}", e.split(':').next().unwrap_or("")), format!("{named:?} {:?}: {e}", sets[s]), json!({"list": named, "set": s}));
            }
        },
    );
    // Ways to name them
    let top: Vec<String> = names.iter().map(|n| format!("./{n}")).collect();
    let absolute: Vec<String> = names.iter().map(|n| tree.join(n).display().to_string()).collect();
    let groups: Vec<(PathBuf, Vec<&str>)> = vec![
        (tree.clone(), vec!["."]),
        (tree.clone(), vec!["sub"]),
        (tree.clone(), vec!["sub", "one.R"]),
        (tree.clone(), vec!["one.R", "sub", "."]),
        (tree.clone(), vec!["sub/sub"]),
        (tree.join("sub"), vec![".."]),
        (tree.join("sub"), vec!["../one.R", "one.R"]),
        (tree.clone(), top.iter().map(|s| &s[..]).collect()),
        (tree.clone(), absolute.iter().map(|s| &s[..]).collect()),
        (tree.clone(), top.iter().rev().map(|s| &s[..]).collect()),
    ];
    par(&c,
        groups.len(),
        |i| format!("{:?}", groups[i].1),
        |i| {
            let (d, p) = &groups[i];
            for o in sets {
                c.eval(5);
                c.nontriv(5);
                match judge(d, p, o) {
                    Ok(r) => c.outcome(&format!("{} violations in {} files of a tree", r.found.len(), r.found.iter().map(|f| &f.file).collect::<BTreeSet<_>>().len()), 1),
                    Err(e) => c.violation(&format!("paths {}", e.split(':').next().unwrap_or("")), format!("{p:?} in {d:?}: {e}"), json!({"paths": p})),
                }
            }
        },
    );
    // No files at all
    std::fs::create_dir_all(tree.join("none")).unwrap();
    {
        c.eval(1);
        c.nontriv(1);
        match alone(&tree, &["none"], &[]) {
            Ok(r) if r.found.is_empty() && r.failed.is_empty() && r.status == Some(0) => {}
            Ok(r) => c.violation("none", format!("status {:?} for a directory without R files", r.status), json!({"paths": ["none"]})),
            Err(e) => c.violation("none", format!("a directory without R files: {e}"), json!({"paths": ["none"]})),
        }
    }
    // What is left after fixing, in every format
    let fixes: &[&[&str]] = &[&["--fix"], &["--fix", "--unsafe-fixes"], &["--fix-only"], &["--unsafe-fixes", "--fix-only"], &["--unsafe-fixes"]];
    let fix_lists: Vec<Vec<usize>> = lists.iter().filter(|l| l.len() == 1 || (c.thorough() && l.len() == 2)).cloned().chain([(0..n).collect(), (0..n).rev().collect()]).collect();
    par(&c,
        fix_lists.len() * fixes.len(),
        |k| format!("{:?} {:?}", fix_lists[k / fixes.len()], fixes[k % fixes.len()]),
        |k| {
            let (l, o) = (&fix_lists[k / fixes.len()], fixes[k % fixes.len()]);
            let one = |f: &str| -> (cli::Ran, Vec<Vec<u8>>) {
                let s = base.sub();
                for i in l {
                    write(s.dir.join(names[*i]), &all[*i].text);
                }
                let mut a = vec!["check"];
                a.extend(l.iter().map(|i| names[*i]));
                a.extend(format_args(f));
                a.extend(o);
                a.push("--allow-no-vcs");
                let r = cli::run_in(&s.dir, &a);
                (r, l.iter().map(|i| std::fs::read(s.dir.join(names[*i])).unwrap()).collect())
            };
            let judge = || -> Result<(), String> {
                let (r, after) = one("json");
                let r = of_json(&r)?;
                for f in FORMATS {
                    c.eval(1);
                    c.nontriv(1);
                    let (x, now) = one(f);
                    r.agrees(f, &x)?;
                    if now != after {
                        return Err(format!("the files are not the same after {o:?} with {f} as with JSON"));
                    }
                }
                Ok(())
            };
            if let Err(e) = judge() {
                let named: Vec<&str> = l.iter().map(|i| names[*i]).collect();
                c.violation(&format!("fixing {}", e.split(':').next().unwrap_or("")), format!("{named:?} {o:?}: {e}"), json!({"files": named, "options": o}));
            }
        },
    );
    // Every expression in surroundings, as a tree of files
    let ctx: Vec<&str> = if c.thorough() { progs::LOOSE.iter().chain(progs::LINES).copied().collect() } else { vec!["@", "f(n = @)", "if (a) {\n  @\n} else {\n  @\n}", "a\r\n@\r\n", "'\u{e9}\u{1F600}'; @ # end", "'multi\nline'; @"] };
    let corpus = progs::corpus();
    par(&c,
        ctx.len(),
        |i| ctx[i].into(),
        |i| {
            let s = base.sub();
            for (k, t) in corpus.iter().enumerate() {
                write(s.dir.join(format!("d{}/f{k}.R", k % 7)), ctx[i].replace('@', &t.text));
            }
            c.eval(corpus.len() as u64);
            match judge(&s.dir, &["."], &["--select", "ALL", "--min-r-version", "4.5"]) {
                Ok(r) => {
                    c.nontriv(r.found.len() as u64);
                    if r.found.len() < 500 {
                        c.violation("corpus few", format!("only {} violations with {:?}", r.found.len(), ctx[i]), json!({"surrounding": ctx[i]}));
                    }
                    c.outcome("every violation of the corpus in a surrounding, in all formats", 1);
                }
                Err(e) => c.violation(&format!("corpus {}", e.split(':').next().unwrap_or("")), format!("the corpus with {:?}: {e}", ctx[i]), json!({"surrounding": ctx[i]})),
            }
        },
    );
    c.finish()
}

// ---------------------------------------------------------------- colours
const PAGES: &str = "https://jarl.etiennebacher.com/rules/";
/// The text without colours and links, and the links: where to and their text.
fn undecorated(text: &str) -> Result<(String, Vec<(String, String)>), String> {
    let (mut plain, mut links) = (String::new(), vec![]);
    let mut link: Option<(String, usize)> = None;
    let mut rest = text;
    while let Some(i) = rest.find('\u{1b}') {
        plain += &rest[..i];
        rest = &rest[i + 1..];
        if let Some(r) = rest.strip_prefix('[') {
            let n = r.find(|c: char| !c.is_ascii_digit() && c != ';').ok_or("a colour is not ended")?;
            if !r[n..].starts_with('m') {
                return Err("an escape sequence is neither a colour nor a link".into());
            }
            rest = &r[n + 1..];
        } else if let Some(r) = rest.strip_prefix("]8;;") {
            let n = r.find("\u{1b}\\").ok_or("a link is not ended")?;
            link = match (link, &r[..n]) {
                (None, "") => return Err("a link ends that did not start".into()),
                (None, to) => Some((to.into(), plain.len())),
                (Some((to, at)), "") => {
                    links.push((to, plain[at..].to_string()));
                    None
                }
                (Some(_), _) => return Err("a link in a link".into()),
            };
            rest = &r[n + 2..];
        } else {
            return Err("an escape sequence is neither a colour nor a link".into());
        }
    }
    plain += rest;
    match link {
        Some(_) => Err("a link is left open".into()),
        None => Ok((plain, links)),
    }
}

fn p12() {
    let c = Check::new("P12", "model_checking");
    c.rule("for all ordered lists of up to two (thorough: three, in two formats) of 25 kinds of files, the default and all rules, the five formats, and checking as well as ways of fixing (single files; thorough: pairs): with NO_COLOR unset (also with CLICOLOR_FORCE) both streams without their colours and links, the exit status and the files are those with NO_COLOR=1; the full and concise formats have one link per violation, around its rule and to that rule's page, in the same order, and JSON and GitHub no escape sequence at all; and with NO_COLOR set to any value nothing has one, even with CLICOLOR_FORCE");
    c.assume("colours are those of a stand-in for the crate `colored`, which follows its documented rules about NO_COLOR and CLICOLOR_FORCE; a stream that is no terminal");
    let mut all = files();
    all.push(File { name: "long.R", text: format!("any(is.na({}))\nif (all({} == TRUE)) 1\n", "x".repeat(200), "y + ".repeat(40) + "y").into(), fails: false });
    let names: Vec<&str> = all.iter().map(|f| f.name).collect();
    let n = names.len();
    let base = Scratch::new("P12");
    base.enter();
    let mut lists: Vec<Vec<usize>> = vec![];
    for i in 0..n {
        lists.push(vec![i]);
        for j in (0..n).filter(|j| *j != i) {
            lists.push(vec![i, j]);
            if c.thorough() {
                lists.extend((0..n).filter(|k| *k != i && *k != j).map(|k| vec![i, j, k]));
            }
        }
    }
    lists.push((0..n).collect());
    lists.push((0..n).rev().collect());
    let modes: &[&[&str]] = &[&[], &["--select", "ALL"], &["--fix", "--allow-no-vcs"], &["--fix", "--unsafe-fixes", "--allow-no-vcs", "--select", "ALL"], &["--fix-only", "--allow-no-vcs"], &["--unsafe-fixes"], &["--add-jarl-ignore=why"]];
    const ADDS: usize = 6;
    const FORMS: &[&str] = &["full", "concise", "statistics", "json", "github"];
    // What is set, and whether there are decorations
    const ENVS: &[(&[(&str, &str)], bool)] = &[
        (&[], true),
        (&[("CLICOLOR_FORCE", "1")], true),
        (&[("NO_COLOR", "1"), ("CLICOLOR_FORCE", "1")], false),
        (&[("NO_COLOR", "true")], false),
        (&[("NO_COLOR", "0")], false),
    ];
    let case = |l: &[usize], m: usize, f: usize, all_envs: bool| -> Result<(), String> {
        let fixes = modes[m].iter().any(|a| a.contains("fix-only") || *a == "--fix" || a.contains("jarl-ignore"));
        let fresh = || {
            let s = base.sub();
            for i in l {
                write(s.dir.join(names[*i]), &all[*i].text);
            }
            s
        };
        let one = |s: &Scratch, format: &str, env: &[(&str, &str)]| {
            let mut a = vec!["check"];
            a.extend(l.iter().map(|i| names[*i]));
            a.extend(format_args(format));
            a.extend(modes[m]);
            let o = Command::new(cli::jarl()).args(&a).current_dir(&s.dir).env_clear().env("HOME", &s.dir).envs(env.iter().copied()).stdin(Stdio::null()).output().expect("run jarl");
            let left: Vec<Vec<u8>> = l.iter().map(|i| std::fs::read(s.dir.join(names[*i])).unwrap()).collect();
            // Scratch directories have names of their own
            let name = s.dir.display().to_string();
            let text = |b: Vec<u8>| String::from_utf8_lossy(&b).replace(&name, "DIR");
            (o.status.code(), text(o.stdout), text(o.stderr), left)
        };
        let first = fresh();
        let plain = one(&first, FORMS[f], &[("NO_COLOR", "1")]);
        c.states.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if plain.1.contains('\u{1b}') || plain.2.contains('\u{1b}') {
            return Err(format!("an escape sequence in {} with NO_COLOR", FORMS[f]));
        }
        for (env, decorated) in ENVS.iter().take(if all_envs { ENVS.len() } else { 2 }) {
            let s = if fixes { Some(fresh()) } else { None };
            let got = one(s.as_ref().unwrap_or(&first), FORMS[f], env);
            c.eval(1);
            if got.0 != plain.0 {
                return Err(format!("the status is {:?} with {env:?}, and {:?} with NO_COLOR=1", got.0, plain.0));
            }
            if got.3 != plain.3 {
                return Err(format!("the files differ with {env:?} from those with NO_COLOR=1"));
            }
            // Adding comments gives no report, but says what it did
            let never = !decorated || (matches!(FORMS[f], "json" | "github") && m != ADDS);
            let (out, links) = undecorated(&got.1).map_err(|e| format!("{e} with {env:?}: {:?}", got.1))?;
            let (err, more) = undecorated(&got.2).map_err(|e| format!("{e} with {env:?}: {:?}", got.2))?;
            if never && (out != got.1 || err != got.2) {
                return Err(format!("an escape sequence in {} with {env:?}", FORMS[f]));
            }
            if (&out, &err) != (&plain.1, &plain.2) {
                let k = out.lines().chain(err.lines()).zip(plain.1.lines().chain(plain.2.lines())).find(|(a, b)| a != b);
                return Err(format!("the text with {env:?} is not the one with NO_COLOR=1: {k:?}"));
            }
            if let Some((to, text)) = links.iter().chain(&more).find(|(to, text)| to.strip_prefix(PAGES) != Some(text) || jarl_core::rule_set::Rule::from_name(text).is_none()) {
                return Err(format!("a link on {text:?} to {to:?}"));
            }
            if *decorated && matches!(FORMS[f], "full" | "concise") && m != ADDS {
                let s = if fixes { Some(fresh()) } else { None };
                let r = one(s.as_ref().unwrap_or(&first), "json", &[("NO_COLOR", "1")]);
                let want: Vec<String> = of_json(&cli::Ran { status: r.0, out: r.1, err: r.2 })?.found.into_iter().map(|f| f.rule).collect();
                if want != links.iter().map(|x| x.1.clone()).collect::<Vec<_>>() {
                    return Err(format!("links on {:?} for violations of {want:?}", links.iter().map(|x| &x.1).collect::<Vec<_>>()));
                }
                c.nontriv(u64::from(!want.is_empty()));
            }
        }
        Ok(())
    };
    if let Some(v) = c.replay() {
        if let Some(l) = v["list"].as_array() {
            let l: Vec<usize> = l.iter().map(|x| names.iter().position(|n| Some(*n) == x.as_str()).expect("file")).collect();
            let at = |k: &str| v[k].as_u64().unwrap_or(0) as usize;
            if let Err(e) = case(&l, at("mode"), at("format"), true) {
                c.violation("replay", e, v.clone());
            }
            c.finish()
        }
    }
    let per = modes.len() * FORMS.len();
    par(
        &c,
        lists.len() * per,
        |k| format!("{:?} {:?} {}", lists[k / per], modes[k % per / FORMS.len()], FORMS[k % FORMS.len()]),
        |k| {
            let (l, m, f) = (&lists[k / per], k % per / FORMS.len(), k % FORMS.len());
            // Pairs in two ways only, all environments for single files
            if (l.len() == 2 && m > 1 && !c.thorough()) || (l.len() == 3 && (m > 1 || f > 1)) {
                return;
            }
            if let Err(e) = case(l, m, f, l.len() != 2 || c.thorough()) {
                let named: Vec<&str> = l.iter().map(|i| names[*i]).collect();
                c.violation(&format!("{} {}", FORMS[f], e.split(':').next().unwrap_or("")), format!("{named:?} {:?} {}: {e}", modes[m], FORMS[f]), json!({"list": named, "mode": m, "format": f}));
            }
        },
    );
    // Every expression of the rules' tests, as a tree of files
    let s = base.sub();
    for (k, t) in progs::corpus().iter().enumerate() {
        write(s.dir.join(format!("d{}/f{k}.R", k % 7)), &t.text);
    }
    let run = |format: &str, env: &[(&str, &str)]| {
        let mut a = vec!["check", ".", "--select", "ALL", "--min-r-version", "4.5"];
        a.extend(format_args(format));
        let o = Command::new(cli::jarl()).args(&a).current_dir(&s.dir).env_clear().env("HOME", &s.dir).envs(env.iter().copied()).stdin(Stdio::null()).output().expect("run jarl");
        cli::Ran { status: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into() }
    };
    let corpus = || -> Result<(), String> {
        let want: Vec<String> = of_json(&run("json", &[("NO_COLOR", "1")]))?.found.into_iter().map(|f| f.rule).collect();
        for f in FORMS {
            let plain = run(f, &[("NO_COLOR", "1")]);
            for (env, decorated) in ENVS {
                let got = run(f, env);
                c.eval(1);
                c.nontriv(want.len() as u64);
                let (out, links) = undecorated(&got.out)?;
                let (err, _) = undecorated(&got.err)?;
                if (&out, &err) != (&plain.out, &plain.err) {
                    let k = out.lines().chain(err.lines()).zip(plain.out.lines().chain(plain.err.lines())).find(|(a, b)| a != b);
                    return Err(format!("the text with {env:?} in {f} is not the one with NO_COLOR=1: {k:?}"));
                }
                let has = *decorated && matches!(*f, "full" | "concise");
                if links.iter().any(|(to, text)| to.strip_prefix(PAGES) != Some(text)) || links.iter().map(|x| &x.1).ne(want.iter().filter(|_| has)) {
                    return Err(format!("the links with {env:?} in {f} are not those on the {} violations", want.len()));
                }
            }
        }
        c.outcome(&format!("{} violations of {} rules", want.len(), want.iter().collect::<BTreeSet<_>>().len()), 1);
        Ok(())
    };
    if let Err(e) = corpus() {
        c.violation(&format!("corpus {}", e.split(':').next().unwrap_or("")), e, json!({"corpus": true}));
    }
    c.finish()
}

// ---------------------------------------------------------------- surroundings
/// Arguments and environment variables that must not change what is reported and done.
const AROUND: &[(&[&str], &[(&str, &str)])] = &[
    (&[], &[("RAYON_NUM_THREADS", "1")]),
    (&["--log-level", "trace"], &[]),
    (&["--with-timing"], &[]),
    (&[], &[("RUST_BACKTRACE", "full"), ("RUST_LIB_BACKTRACE", "1")]),
    (&[], &[("RAYON_NUM_THREADS", "2")]),
    (&[], &[("RAYON_NUM_THREADS", "64")]),
    (&["--log-level", "error"], &[]),
    (&["--log-level", "debug"], &[("RUST_LOG", "off"), ("JARL_LOG", "off")]),
    (&[], &[("RUST_LOG", "trace")]),
    (&[], &[("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("LANGUAGE", "fr"), ("TZ", "Asia/Kathmandu")]),
    (&[], &[("LC_ALL", "C")]),
    (&[], &[("COLUMNS", "10"), ("LINES", "2"), ("TERM", "dumb")]),
    (&[], &[("CI", "true"), ("GITHUB_ACTIONS", "true"), ("R_HOME", "/nowhere"), ("EDITOR", "x"), ("PATH", "")]),
    (&[], &[("TMPDIR", "/nowhere"), ("XDG_CACHE_HOME", "/nowhere"), ("USER", "nobody")]),
];
/// Without the lines that only logs and timing have.
fn without_logs(text: &str) -> Vec<String> {
    let log = |l: &str| ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"].iter().any(|n| l.trim_start().strip_prefix(n).is_some_and(|r| r.starts_with(' ')));
    text.lines().filter(|l| !log(l)).map(String::from).collect()
}

fn p13() {
    let c = Check::new("P13", "model_checking");
    c.rule("for all ordered lists of up to two (thorough: three) of 24 kinds of files, five formats, checking and ways of fixing, with and without a configuration further up: the report, the exit status and the files are the same with 1, 2 and 64 threads, at every log level, with --with-timing, and in fourteen environments with other locales, terminals, backtraces, time zones and CI variables, apart from the lines of the log and of the timing; reports in JSON and for GitHub have not even these");
    let all = files();
    let names: Vec<&str> = all.iter().map(|f| f.name).collect();
    let n = names.len();
    let base = Scratch::new("P13");
    base.enter();
    let mut lists: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).rev().collect()];
    for i in 0..n {
        lists.push(vec![i]);
        for j in (0..n).filter(|j| *j != i) {
            lists.push(vec![i, j]);
            if c.thorough() {
                lists.extend((0..n).filter(|k| *k != i && *k != j).map(|k| vec![i, j, k]));
            }
        }
    }
    let modes: &[&[&str]] = &[&[], &["--fix", "--unsafe-fixes", "--allow-no-vcs", "--select", "ALL"], &["--select", "ALL"], &["--fix", "--allow-no-vcs"], &["--fix-only", "--allow-no-vcs"], &["--add-jarl-ignore=why"], &["--select", "nothing"]];
    const FORMS: &[&str] = &["full", "json", "concise", "statistics", "github"];
    let case = |l: &[usize], m: usize, f: usize, around: usize| -> Result<(), String> {
        let s = base.sub();
        // Every other list has a configuration, which is mentioned
        let dir = s.dir.join("in");
        if l.len() % 2 == 0 {
            write(s.dir.join("jarl.toml"), "[lint]\nextend-select = [\"PERF\"]\n");
        }
        let one = |args: &[&str], env: &[(&str, &str)]| {
            for i in l {
                write(dir.join(names[*i]), &all[*i].text);
            }
            let mut a = vec!["check"];
            a.extend(l.iter().map(|i| names[*i]));
            a.extend(format_args(FORMS[f]));
            a.extend(modes[m]);
            a.extend(args);
            let r = run_with(&dir, &a, env);
            let left: Vec<Vec<u8>> = l.iter().map(|i| std::fs::read(dir.join(names[*i])).unwrap()).collect();
            (r, left)
        };
        let (plain, files) = one(&[], &[]);
        c.states.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        for (args, env) in &AROUND[..around] {
            let (got, left) = one(args, env);
            c.eval(1);
            c.nontriv(1);
            let with = format!("with {args:?} {env:?}");
            if got.status != plain.status {
                return Err(format!("another status {with}: {:?} instead of {:?}", got.status, plain.status));
            }
            if left != files {
                return Err(format!("other files {with}"));
            }
            let mut out: Vec<String> = got.out.lines().map(String::from).collect();
            let mut want: Vec<String> = plain.out.lines().map(String::from).collect();
            if args.contains(&"--with-timing") && matches!(FORMS[f], "full" | "concise") {
                let is = |l: &String| l.contains("Checked files in: ");
                if out.iter().filter(|l| is(l)).count() > 1 {
                    return Err(format!("the time is given more than once {with}"));
                }
                // It may have a section of its own
                let rest = |v: Vec<String>| v.into_iter().filter(|l| !is(l) && !l.is_empty() && !l.starts_with('\u{2500}')).collect::<Vec<_>>();
                (out, want) = (rest(out), rest(want));
            } else if got.out.ends_with('\n') != plain.out.ends_with('\n') {
                return Err(format!("another end {with}"));
            }
            if out != want {
                let k = out.iter().zip(&want).find(|(a, b)| a != b);
                return Err(format!("another report {with}: {k:?}, {} and {} lines", out.len(), want.len()));
            }
            let (err, want) = (without_logs(&got.err), without_logs(&plain.err));
            if err != want || !args.contains(&"--log-level") && got.err != plain.err {
                return Err(format!("other messages {with}: {:?} instead of {:?}", got.err, plain.err));
            }
        }
        Ok(())
    };
    if let Some(v) = c.replay() {
        if let Some(l) = v["list"].as_array() {
            let l: Vec<usize> = l.iter().map(|x| names.iter().position(|n| Some(*n) == x.as_str()).expect("file")).collect();
            let at = |k: &str| v[k].as_u64().unwrap_or(0) as usize;
            if let Err(e) = case(&l, at("mode"), at("format"), AROUND.len()) {
                c.violation("replay", e, v.clone());
            }
            c.finish()
        }
    }
    let per = modes.len() * FORMS.len();
    par(
        &c,
        lists.len() * per,
        |k| format!("{:?} {:?} {}", lists[k / per].iter().map(|i| names[*i]).collect::<Vec<_>>(), modes[k % per / FORMS.len()], FORMS[k % FORMS.len()]),
        |k| {
            let (l, m, f) = (&lists[k / per], k % per / FORMS.len(), k % FORMS.len());
            let (m_max, f_max, around) = match (l.len(), c.thorough()) {
                (2, false) => (2, 2, 3),
                (3, true) => (2, 2, 3),
                _ => (99, 99, AROUND.len()),
            };
            if m >= m_max || f >= f_max {
                return;
            }
            if let Err(e) = case(l, m, f, around) {
                let named: Vec<&str> = l.iter().map(|i| names[*i]).collect();
                c.violation(&format!("{} {}", FORMS[f], e.split(':').next().unwrap_or("")), format!("{named:?} {:?} {}: {e}", modes[m], FORMS[f]), json!({"list": named, "mode": m, "format": f}));
            }
        },
    );
    c.finish()
}

// ---------------------------------------------------------------- independence
fn p07() {
    let c = Check::new("P07", "model_checking");
    c.rule("for all ordered lists of up to two (thorough: three) of 24 kinds of files (among them ones that cannot be read or parsed) and for trees of them, in every mode (check, fix, fix with unsafe fixes, fix only, insert comments), with one and with eight threads: what is reported for a file and what the file contains afterwards are what they are when the file is given alone; a file that cannot be checked is left as it is; and the same for every expression of the rules' tests in one tree of files");
    c.assume("the schedules of the worker threads are those that occur; the files are not part of a package (its rules look at several files by design)");
    let all = files();
    let n = all.len();
    let base = Scratch::new("P07");
    base.enter();
    const MODES: &[&[&str]] = &[&[], &["--fix"], &["--fix", "--unsafe-fixes"], &["--fix-only"], &["--add-jarl-ignore=why"], &["--fix", "--select", "ALL"]];
    struct Seen {
        found: BTreeMap<String, Vec<Found>>,
        failed: BTreeSet<String>,
        after: Vec<Vec<u8>>,
    }
    let go = |list: &[(&str, &[u8])], mode: &[&str], threads: &str, whole: bool| -> Result<Seen, String> {
        let s = base.sub();
        for (f, t) in list {
            write(s.dir.join(f), t);
        }
        let mut a = vec!["check"];
        if whole {
            a.push(".");
        } else {
            a.extend(list.iter().map(|x| x.0));
        }
        a.extend(["--output-format", "json", "--allow-no-vcs"]);
        a.extend(mode);
        let r = run_with(&s.dir, &a, &[("RAYON_NUM_THREADS", threads)]);
        let mut found: BTreeMap<String, Vec<Found>> = BTreeMap::new();
        let mut failed = BTreeSet::new();
        if !mode[..].iter().any(|m| m.starts_with("--add")) {
            let r = of_json(&r)?;
            for f in r.found {
                found.entry(f.file.clone()).or_default().push(f);
            }
            failed.extend(r.failed);
        } else if !matches!(r.status, Some(0 | 1 | 255)) {
            return Err(format!("status {:?}: {}", r.status, r.err));
        }
        let after = list.iter().map(|(f, _)| std::fs::read(s.dir.join(f)).unwrap()).collect();
        Ok(Seen { found, failed, after })
    };
    fn same(name: &str, i: usize, alone: &Seen, got: &Seen) -> Result<(), String> {
        if alone.found.get(name) != got.found.get(name) {
            return Err(format!("what is reported for {name}: {:?} alone, {:?} here", alone.found.get(name).map_or(0, |v| v.len()), got.found.get(name).map_or(0, |v| v.len())));
        }
        if alone.failed.contains(name) != got.failed.contains(name) {
            return Err(format!("{name} fails alone: {}, fails here: {}", alone.failed.contains(name), got.failed.contains(name)));
        }
        if alone.after[0] != got.after[i] {
            return Err(format!("{name} is {:?} afterwards, alone {:?}", String::from_utf8_lossy(&got.after[i]), String::from_utf8_lossy(&alone.after[0])));
        }
        Ok(())
    }
    let alone: Vec<Vec<Option<Seen>>> = MODES
        .iter()
        .map(|m| {
            all.iter()
                .map(|f| {
                    c.eval(1);
                    match go(&[(f.name, &f.text)], m, "8", false) {
                        Ok(s) => {
                            if f.fails && (s.after[0] != f.text || !(s.failed.contains(f.name) || m.iter().any(|x| x.starts_with("--add")))) {
                                c.violation("broken file", format!("{} with {m:?}: a file that cannot be checked is changed or not said to fail", f.name), json!({"file": f.name, "mode": m}));
                            }
                            Some(s)
                        }
                        Err(e) => {
                            c.violation("alone", format!("{} with {m:?}: {e}", f.name), json!({"file": f.name, "mode": m}));
                            None
                        }
                    }
                })
                .collect()
        })
        .collect();
    let changes: usize = alone.iter().flatten().zip(all.iter().cycle()).filter(|(s, f)| s.as_ref().is_some_and(|s| s.after[0] != f.text)).count();
    c.extra("files changed alone", json!(changes));
    if changes < 40 {
        c.violation("few changes", format!("only {changes} files are changed by any mode"), json!({}));
    }
    let mut lists: Vec<Vec<usize>> = vec![];
    for i in 0..n {
        for j in 0..n {
            if i != j {
                lists.push(vec![i, j]);
                if c.thorough() {
                    lists.extend((0..n).filter(|k| *k != i && *k != j).map(|k| vec![i, j, k]));
                }
            }
        }
    }
    // whole trees, without one file each
    lists.push((0..n).collect());
    lists.push((0..n).rev().collect());
    lists.extend((0..n).map(|k| (0..n).filter(|i| *i != k).collect()));
    let case = |l: &[usize], m: usize, t: &str, whole: bool| -> Result<(), String> {
        let list: Vec<(&str, &[u8])> = l.iter().map(|i| (all[*i].name, &all[*i].text[..])).collect();
        let got = go(&list, MODES[m], t, whole)?;
        for (k, i) in l.iter().enumerate() {
            if let Some(a) = &alone[m][*i] {
                same(all[*i].name, k, a, &got)?;
            }
        }
        let other: Vec<_> = got.found.keys().chain(&got.failed).filter(|f| !list.iter().any(|x| x.0 == *f)).collect();
        if !other.is_empty() {
            return Err(format!("reports about {other:?}, which were not given"));
        }
        Ok(())
    };
    const WAYS: &[(&str, bool)] = &[("1", false), ("8", false), ("3", true)];
    if let Some(v) = c.replay().filter(|v| v["files"].is_array()) {
        let l: Vec<usize> = v["files"].as_array().unwrap().iter().map(|x| all.iter().position(|n| Some(n.name) == x.as_str()).expect("file")).collect();
        let m = v["mode"].as_u64().unwrap() as usize;
        if let Err(e) = case(&l, m, v["threads"].as_str().unwrap(), v["whole"].as_bool().unwrap()) {
            c.violation("replay", e, v.clone());
        }
        c.finish();
    }
    let per = MODES.len() * WAYS.len();
    let named = |k: usize| -> Vec<&str> { lists[k / per].iter().map(|i| all[*i].name).collect() };
    par(
        &c,
        lists.len() * per,
        |k| format!("{:?}", named(k)),
        |k| {
            let m = k % per / WAYS.len();
            let (t, whole) = WAYS[k % WAYS.len()];
            let l = &lists[k / per];
            c.eval(1);
            c.nontriv(l.len() as u64);
            match case(l, m, t, whole) {
                Ok(()) => c.outcome(&format!("as alone, with {:?}", MODES[m]), 1),
                Err(e) => c.violation(&format!("mode {m}"), format!("{:?} with {:?}, {t} threads: {e}", named(k), MODES[m]), json!({"files": named(k), "mode": m, "threads": t, "whole": whole})),
            }
        },
    );
    // The corpus
    let corpus = progs::corpus();
    let names: Vec<String> = (0..corpus.len()).map(|k| format!("d{}/f{k}.R", k % 7)).collect();
    let texts: Vec<String> = corpus.iter().map(|t| if c.thorough() { format!("f({})\n{}\n", t.text, t.text) } else { format!("{}\n", t.text) }).collect();
    let list: Vec<(&str, &[u8])> = names.iter().zip(&texts).map(|(n, t)| (&n[..], t.as_bytes())).collect();
    const CORPUS_MODES: &[usize] = &[0, 2, 4, 5];
    let together: Vec<Option<Seen>> = CORPUS_MODES
        .iter()
        .flat_map(|m| [(*m, "1"), (*m, "8")])
        .map(|(m, t)| match go(&list, MODES[m], t, true) {
            Ok(s) => Some(s),
            Err(e) => {
                c.violation("corpus", format!("the corpus with {:?}: {e}", MODES[m]), json!({"corpus": m}));
                None
            }
        })
        .collect();
    par(
        &c,
        list.len() * CORPUS_MODES.len(),
        |k| names[k / CORPUS_MODES.len()].clone(),
        |k| {
            let (i, m) = (k / CORPUS_MODES.len(), k % CORPUS_MODES.len());
            c.eval(2);
            c.nontriv(2);
            let judge = || -> Result<(), String> {
                let a = go(&[list[i]], MODES[CORPUS_MODES[m]], "8", false)?;
                for s in together[2 * m..2 * m + 2].iter().flatten() {
                    same(&names[i], i, &a, s)?;
                }
                Ok(())
            };
            if let Err(e) = judge() {
                c.violation(&format!("corpus {m}"), format!("{:?} among the others with {:?}: {e}", texts[i], MODES[CORPUS_MODES[m]]), json!({"text": texts[i], "mode": CORPUS_MODES[m]}));
            }
        },
    );
    c.outcome("every expression of the corpus, as alone", (list.len() * CORPUS_MODES.len() * 2) as u64);
    c.finish()
}

// ---------------------------------------------------------------- version control
struct State {
    name: &'static str,
    /// Run in the scratch directory, where `p` has files but no repository.
    script: &'static str,
    /// Its repositories, and whether each has uncommitted changes.
    repos: &'static [(&'static str, bool)],
}
const G: &str = "r() { git -C \"$1\" init -q; git -C \"$1\" add -A; git -C \"$1\" commit -q -m x; }\n";
const STATES: &[State] = &[
    State { name: "no repository", script: "", repos: &[] },
    State { name: "clean", script: "r p", repos: &[("p", false)] },
    State { name: "clean above", script: "r .", repos: &[("", false)] },
    State { name: "the file changed", script: "r p; echo '#' >> p/a.R", repos: &[("p", true)] },
    State { name: "another file changed", script: "r p; echo '#' >> p/note.txt", repos: &[("p", true)] },
    State { name: "another R file changed", script: "r p; echo '#' >> p/sub/c.R", repos: &[("p", true)] },
    State { name: "changed above", script: "r .; echo '#' >> p/note.txt", repos: &[("", true)] },
    State { name: "new file", script: "r p; echo > p/sub/new.txt", repos: &[("p", true)] },
    State { name: "new R file", script: "r p; echo 'any(is.na(x))' > p/new.R", repos: &[("p", true)] },
    State { name: "new directory", script: "r p; mkdir p/new; echo > p/new/x", repos: &[("p", true)] },
    State { name: "new hidden file", script: "r p; echo > p/.x", repos: &[("p", true)] },
    State { name: "new file with a long name", script: "r p; echo > 'p/\u{e9} x.txt'", repos: &[("p", true)] },
    State { name: "staged file", script: "r p; echo > p/new.txt; git -C p add -A", repos: &[("p", true)] },
    State { name: "staged change", script: "r p; echo '#' >> p/a.R; git -C p add -A", repos: &[("p", true)] },
    State { name: "staged and taken back", script: "r p; cp p/note.txt k; echo '#' >> p/note.txt; git -C p add -A; cp k p/note.txt", repos: &[("p", true)] },
    State { name: "deleted", script: "r p; rm p/note.txt", repos: &[("p", true)] },
    State { name: "staged deletion", script: "r p; git -C p rm -q note.txt", repos: &[("p", true)] },
    State { name: "only removed from the index", script: "r p; git -C p rm -q --cached a.R", repos: &[("p", true)] },
    State { name: "staged renaming", script: "r p; git -C p mv note.txt n.txt", repos: &[("p", true)] },
    State { name: "made executable", script: "r p; chmod +x p/note.txt", repos: &[("p", true)] },
    State { name: "became a link", script: "r p; rm p/note.txt; ln -s a.R p/note.txt", repos: &[("p", true)] },
    State { name: "only ignored files", script: "echo '*.log' > p/.gitignore; r p; echo > p/x.log", repos: &[("p", false)] },
    State { name: "only an ignored directory", script: "echo 'out/' > p/.gitignore; r p; mkdir p/out; echo > p/out/x", repos: &[("p", false)] },
    State { name: "excluded in .git", script: "r p; echo '*.log' > p/.git/info/exclude; echo > p/x.log", repos: &[("p", false)] },
    State { name: "touched", script: "r p; touch -d 2001-01-01 p/a.R p/note.txt", repos: &[("p", false)] },
    State { name: "no commits", script: "git -C p init -q", repos: &[("p", true)] },
    State { name: "no commits, staged", script: "git -C p init -q; git -C p add -A", repos: &[("p", true)] },
    State { name: "detached", script: "r p; git -C p checkout -q --detach", repos: &[("p", false)] },
    State { name: "stashed", script: "r p; echo '#' >> p/a.R; git -C p stash -q", repos: &[("p", false)] },
    State { name: "conflict", script: "r p; git -C p checkout -q -b o; echo 1 > p/note.txt; git -C p commit -q -a -m y; git -C p checkout -q -; echo 2 > p/note.txt; git -C p commit -q -a -m z; git -C p merge -q o > k || true", repos: &[("p", true)] },
    State { name: "two clean", script: "cp -r p q; r p; r q", repos: &[("p", false), ("q", false)] },
    State { name: "one of two changed", script: "cp -r p q; r p; r q; echo > q/new", repos: &[("p", false), ("q", true)] },
    State { name: "the other of two changed", script: "cp -r p q; r p; r q; echo > p/new", repos: &[("p", true), ("q", false)] },
    State { name: "one clean, one without", script: "cp -r p q; r p", repos: &[("p", false)] },
    State { name: "one without, one clean", script: "cp -r p q; r q", repos: &[("q", false)] },
    State { name: "one changed, one without", script: "cp -r p q; r p; echo > p/new", repos: &[("p", true)] },
    State { name: "inside another, all clean", script: "cp -r p k; mv k p/in; r p/in; echo 'in/' > p/.gitignore; r p", repos: &[("p", false), ("p/in", false)] },
    State { name: "inside another and changed", script: "cp -r p k; mv k p/in; r p/in; echo 'in/' > p/.gitignore; r p; echo > p/in/new", repos: &[("p", false), ("p/in", true)] },
    State { name: "inside another, which is changed", script: "cp -r p k; mv k p/in; r p/in; echo 'in/' > p/.gitignore; r p; echo > p/new", repos: &[("p", true), ("p/in", false)] },
    State { name: "inside another, new in it", script: "r p; cp -r p k; rm -rf k/.git; mv k p/in; r p/in", repos: &[("p", true), ("p/in", false)] },
    State { name: "worktree, all clean", script: "r p; git -C p worktree add -q ../w", repos: &[("p", false), ("w", false)] },
    State { name: "worktree changed", script: "r p; git -C p worktree add -q ../w; echo '#' >> w/a.R", repos: &[("p", false), ("w", true)] },
    State { name: "worktree clean, main changed", script: "r p; git -C p worktree add -q ../w; echo '#' >> p/a.R", repos: &[("p", true), ("w", false)] },
    State { name: "separate git directory", script: "git init -q --separate-git-dir g p; git -C p add -A; git -C p commit -q -m x", repos: &[("p", false)] },
    State { name: "separate git directory, changed", script: "git init -q --separate-git-dir g p; git -C p add -A; git -C p commit -q -m x; echo > p/new", repos: &[("p", true)] },
    State { name: "submodule", script: "cp -r p q; r p; r q; git -C p -c protocol.file.allow=always submodule -q add ../q s 2>/dev/null; git -C p commit -q -m s", repos: &[("p", false), ("p/s", false), ("q", false)] },
    State { name: "submodule with another commit", script: "cp -r p q; r p; r q; git -C p -c protocol.file.allow=always submodule -q add ../q s 2>/dev/null; git -C p commit -q -m s; git -C p/s commit -q --allow-empty -m y", repos: &[("p", true), ("p/s", false), ("q", false)] },
    State { name: "submodule changed", script: "cp -r p q; r p; r q; git -C p -c protocol.file.allow=always submodule -q add ../q s 2>/dev/null; git -C p commit -q -m s; echo '#' >> p/s/a.R", repos: &[("p", true), ("p/s", true), ("q", false)] },
];
/// Everything outside the git directories.
fn tree(d: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(d: &Path, at: &str, out: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).unwrap().flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            let t = e.file_type().unwrap();
            if n == ".git" || n == "g" {
                continue;
            }
            let p = format!("{at}{n}");
            if t.is_dir() {
                walk(&e.path(), &format!("{p}/"), out);
            } else if t.is_file() {
                out.insert(p, std::fs::read(e.path()).unwrap());
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(d, "", &mut out);
    out
}
fn p05() {
    let c = Check::new("P05", "model_checking");
    c.rule("for all listed states of git repositories (none, clean, every way of having uncommitted changes, nested and linked ones, worktrees, submodules), all ways to name files in them from two working directories, all kinds of fixing and all combinations of the two --allow options: files are changed if and only if every file to check is in a repository and the repositories of all of them are clean, or the options allow it; otherwise no file at all is changed, the status is 255 and the reason is given; without fixing nothing is ever changed or refused");
    c.assume("git2 is a stand-in over the git program (its sources are not available here), after libgit2's documentation; --allow-no-vcs in a repository with uncommitted changes is not judged; repositories that ignore a file that is checked are not judged");
    let base = Scratch::new("P05");
    base.enter();
    const TEXT: &str = "any(is.na(x))\n";
    let make = |s: &State| -> Result<Scratch, String> {
        let d = base.sub();
        for f in ["p/a.R", "p/b.R", "p/sub/c.R"] {
            write(d.dir.join(f), TEXT);
        }
        write(d.dir.join("p/note.txt"), "note\n");
        let o = Command::new("sh")
            .args(["-e", "-c", &format!("{G}{}", s.script)])
            .current_dir(&d.dir)
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", &d.dir)
            .env("GIT_CONFIG_NOSYSTEM", "1")
            .envs([("GIT_AUTHOR_NAME", "x"), ("GIT_AUTHOR_EMAIL", "x@x"), ("GIT_COMMITTER_NAME", "x"), ("GIT_COMMITTER_EMAIL", "x@x")])
            .stdin(Stdio::null())
            .output()
            .map_err(|e| e.to_string())?;
        if !o.status.success() {
            return Err(format!("{}: {}", s.name, String::from_utf8_lossy(&o.stderr)));
        }
        Ok(d)
    };
    const FIX: &[&[&str]] = &[&[], &["--fix"], &["--fix", "--unsafe-fixes"], &["--fix-only"], &["--unsafe-fixes"], &["--fix", "--statistics"]];
    const ALLOW: &[&[&str]] = &[&[], &["--allow-dirty"], &["--allow-no-vcs"], &["--allow-dirty", "--allow-no-vcs"]];
    const FORMAT: &[&str] = &["json", "concise"];
    let per = FIX.len();
    par(
        &c,
        STATES.len() * per,
        |k| format!("{} {:?}", STATES[k / per].name, FIX[k % per]),
        |k| {
            let (s, fix) = (&STATES[k / per], FIX[k % per]);
            let d = match make(s) {
                Ok(d) => d,
                Err(e) => {
                    eprintln!("git: {e}");
                    std::process::exit(2);
                }
            };
            let before = tree(&d.dir);
            let r_files: Vec<&str> = before.keys().filter(|f| f.ends_with(".R")).map(|f| &f[..]).collect();
            // What to check: everything, each directory, each file, two files
            let mut what: Vec<Vec<&str>> = vec![vec![""]];
            let dirs: BTreeSet<&str> = r_files.iter().flat_map(|f| f.match_indices('/').map(|(i, _)| &f[..i])).collect();
            what.extend(dirs.iter().map(|d| vec![*d]));
            what.extend(r_files.iter().map(|f| vec![*f]));
            what.push(vec![r_files[0], r_files[r_files.len() - 1]]);
            what.push(vec![r_files[r_files.len() - 1], r_files[0]]);
            let tops: Vec<&str> = dirs.iter().filter(|d| !d.contains('/')).copied().collect();
            if tops.len() > 1 {
                what.push(tops);
            }
            let repo = |f: &str| s.repos.iter().filter(|(r, _)| files::below(r, f).is_some()).max_by_key(|r| r.0.len());
            for w in &what {
                // Files that git ignores are not checked with the directory around them
                let hidden = |x: &str, f: &str| s.script.contains("'in/'") && files::below("p/in", f).is_some() && x != "p/in" && files::below("p/in", x).is_none();
                let checked: Vec<&str> = r_files.iter().copied().filter(|f| w.iter().any(|x| f == x || files::below(x, f).is_some() && !hidden(x, f))).collect();
                let no_vcs = checked.iter().any(|f| repo(f).is_none());
                let dirty = checked.iter().any(|f| repo(f).is_some_and(|r| r.1));
                for allow in ALLOW {
                    let (ad, an) = (allow.contains(&"--allow-dirty"), allow.contains(&"--allow-no-vcs"));
                    let allowed = if an && dirty && !ad { None } else { Some((an || !no_vcs) && (ad || !dirty)) };
                    for (cwd, up) in [("", ""), ("p", "../")] {
                        for format in FORMAT {
                            if !c.thorough() && (*format == "json") != up.is_empty() {
                                continue;
                            }
                            let paths: Vec<String> = w.iter().map(|x| if x.is_empty() { if up.is_empty() { ".".into() } else { "..".into() } } else { format!("{up}{x}") }).collect();
                            let mut a = vec!["check"];
                            a.extend(paths.iter().map(|p| &p[..]));
                            a.extend(fix);
                            a.extend(*allow);
                            if !fix.contains(&"--statistics") {
                                a.extend(["--output-format", format]);
                            }
                            c.eval(1);
                            let r = cli::run_home(&d.dir.join(cwd), &d.dir, &a);
                            let now = tree(&d.dir);
                            let changed: Vec<&str> = now.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|(k, _)| &k[..]).chain(before.keys().filter(|k| !now.contains_key(*k)).map(|k| &k[..])).collect();
                            let judge = || -> Result<&str, String> {
                                if fix.is_empty() {
                                    return match (changed.is_empty(), r.status) {
                                        (true, Some(1)) => Ok("not fixing: nothing changed or refused"),
                                        (ok, s) => Err(format!("without fixing: status {s:?}, unchanged {ok}: {}", r.err)),
                                    };
                                }
                                if let Some(x) = changed.iter().find(|x| !checked.contains(x)) {
                                    return Err(format!("{x} was changed"));
                                }
                                match allowed {
                                    None => Ok("not judged: --allow-no-vcs with uncommitted changes"),
                                    Some(false) if !changed.is_empty() => Err(format!("{changed:?} were changed")),
                                    Some(false) if r.status != Some(255) => Err(format!("status {:?} when fixing is refused", r.status)),
                                    Some(false) if !format!("{}{}", r.out, r.err).contains(if no_vcs && !an { "--allow-no-vcs" } else { "--allow-dirty" }) => Err(format!("the reason is not given: {}{}", r.out, r.err)),
                                    Some(false) => Ok(if no_vcs { "refused: no repository" } else { "refused: uncommitted changes" }),
                                    Some(true) if fix == ["--unsafe-fixes"] => Ok("fixed or not: unsafe fixes alone"),
                                    Some(true) if !matches!(r.status, Some(0 | 1)) => Err(format!("refused: {}{}", r.out, r.err)),
                                    Some(true) if changed.len() != checked.len() => Err(format!("only {changed:?} were changed of {checked:?}")),
                                    Some(true) => Ok(if dirty || no_vcs { "fixed: allowed by an option" } else { "fixed: all clean" }),
                                }
                            };
                            match judge() {
                                Ok(o) => {
                                    c.nontriv(u64::from(!o.starts_with("not judged")));
                                    c.outcome(o, 1)
                                }
                                Err(e) => {
                                    let kind = e.split([':', ' ']).next().unwrap_or("").to_string();
                                    c.violation(&format!("{}: {kind}", s.name), format!("{}: jarl {a:?} in {cwd:?}: {e}", s.name), json!({"state": s.name, "script": s.script, "args": a, "cwd": cwd}))
                                }
                            }
                            for f in &changed {
                                match before.get(*f) {
                                    Some(t) => std::fs::write(d.dir.join(f), t).unwrap(),
                                    None => std::fs::remove_file(d.dir.join(f)).unwrap(),
                                }
                            }
                        }
                    }
                }
            }
        },
    );
    c.finish()
}
