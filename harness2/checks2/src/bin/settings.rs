//! What the command line and the configuration mean: P01 the rules that are applied,
//! P02 options of rules and configurations that are wrong, P08 the published schema of
//! the configuration, P09 warnings about what is deprecated.
use checks2::*;
use jarl_core::rule_set::Rule;
use mcx::{json, Check, Value};
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "P01" => p01(),
        "P02" => p02(),
        "P08" => p08(),
        "X01" => x01(),
        "P09" => p09(),
        _ => {
            eprintln!("settings P01 P02 P08 P09");
            std::process::exit(2)
        }
    }
}

/// One line per rule.
const LINES: &[(&str, &str)] = &[
    ("any_is_na", "any(is.na(x))"),
    ("any_duplicated", "any(duplicated(x))"),
    ("class_equals", "if (class(x) == 'a') 1"),
    ("which_grepl", "which(grepl('a', x))"),
    ("equals_na", "x == NA"),
    ("download_file", "download.file(x)"),
    ("undesirable_function", "browser()"),
    ("browser", "browser()"),
    ("true_false_symbol", "T"),
    ("expect_length", "expect_equal(length(x), 1)"),
    ("assignment", "x = 1"),
    ("list2df", "do.call(cbind.data.frame, x)"),
    ("coalesce", "if (is.null(x)) y else x"),
    ("grepv", "grep('a', x, value = TRUE)"),
    ("outdated_suppression", "# jarl-ignore any_is_na: why\nz"),
    ("misnamed_suppression", "# jarl-ignore nope: why\nz"),
];
fn lines() -> String {
    let mut seen = BTreeSet::new();
    LINES.iter().filter(|l| seen.insert(l.1)).map(|l| format!("{}\n", l.1)).collect()
}
/// The rules reported; `Err` if the program fails.
fn reported(r: &cli::Ran) -> Result<BTreeSet<String>, String> {
    if !matches!(r.status, Some(0 | 1)) {
        return Err(format!("{:?}: {}", r.status, r.err));
    }
    let v: Value = serde_json::from_str(&r.out).map_err(|e| format!("{e}: {}{}", r.out, r.err))?;
    Ok(v["diagnostics"].as_array().ok_or("no diagnostics")?.iter().map(|d| d["message"]["name"].as_str().unwrap().to_string()).collect())
}

/// Scratch projects that are used by one run at a time.
struct Pool {
    base: Scratch,
    free: Mutex<Vec<PathBuf>>,
    make: Box<dyn Fn(&Path) + Sync + Send>,
}
impl Pool {
    fn new(name: &str, make: impl Fn(&Path) + Sync + Send + 'static) -> Pool {
        let base = Scratch::new(name);
        base.enter();
        Pool { base, free: Mutex::default(), make: Box::new(make) }
    }
    fn with<T>(&self, f: impl FnOnce(&Path) -> T) -> T {
        let d = self.free.lock().unwrap().pop();
        let d = d.unwrap_or_else(|| {
            let s = self.base.sub();
            let d = s.dir.clone();
            // The base removes it
            std::mem::forget(s);
            (self.make)(&d);
            d
        });
        let t = f(&d);
        self.free.lock().unwrap().push(d);
        t
    }
}
fn write(p: PathBuf, text: impl AsRef<[u8]>) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, text).unwrap();
}

// ---------------------------------------------------------------- P01
/// The rules a list of names stands for; `None` if one of them is none.
fn expand<'a>(names: impl Iterator<Item = &'a str>) -> Option<BTreeSet<String>> {
    let mut out = BTreeSet::new();
    for n in names {
        let n = n.trim();
        let mut all: Vec<&Rule> = Rule::all().iter().filter(|r| n == "ALL" || r.name() == n || r.categories().iter().any(|c| c.as_str() == n)).collect();
        if all.is_empty() {
            return None;
        }
        out.extend(all.drain(..).map(|r| r.name().to_string()));
    }
    Some(out)
}
#[derive(Clone, Debug)]
struct Choice {
    cli: [&'static str; 3],
    toml: [Option<&'static [&'static str]>; 3],
}
impl Choice {
    fn selected(&self) -> Option<BTreeSet<String>> {
        let cli = |k: usize| Some(self.cli[k]).filter(|s| !s.is_empty()).map(|s| expand(s.split(',')));
        let toml = |k: usize| self.toml[k].map(|v| expand(v.iter().copied()));
        let mut set = [None, None, None];
        for k in 0..3 {
            let (c, t) = (cli(k), toml(k));
            // A name that is none is an error wherever it stands
            if c == Some(None) || t == Some(None) {
                return None;
            }
            let (c, t) = (c.flatten(), t.flatten());
            set[k] = match (k, c, t) {
                (2, Some(c), Some(t)) => Some(c.union(&t).cloned().collect()),
                (_, c, t) => c.or(t),
            };
        }
        let [select, extend, ignore] = set;
        let mut s = select.unwrap_or_else(|| Rule::all().iter().filter(|r| !r.is_disabled_by_default()).map(|r| r.name().to_string()).collect());
        s.extend(extend.unwrap_or_default());
        let ignore = ignore.unwrap_or_default();
        s.retain(|r| !ignore.contains(r));
        Some(s)
    }
    fn toml_text(&self) -> String {
        let mut s = "[lint]\n".to_string();
        for (k, n) in ["select", "extend-select", "ignore"].iter().enumerate() {
            if let Some(v) = self.toml[k] {
                s += &format!("{n} = {v:?}\n");
            }
        }
        s
    }
}
/// A version as numbers; `None` if it is none.
fn version(s: &str) -> Option<(u32, u32, u32)> {
    let p: Vec<Option<u32>> = s.split('.').map(|x| if !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit()) { x.parse().ok() } else { None }).collect();
    match p[..] {
        [Some(a), Some(b)] => Some((a, b, 0)),
        [Some(a), Some(b), Some(c)] => Some((a, b, c)),
        _ => None,
    }
}
fn p01() {
    let c = Check::new("P01", "model_checking");
    c.rule("for all combinations of --select, --extend-select, --ignore and of select, extend-select and ignore in jarl.toml over names, groups, ALL, empty lists and names that are none; and for all combinations of --min-r-version, what DESCRIPTION says, where the file is in the package and how it is named: the rules that are applied to a file with violations of many rules are those that the documented set algebra gives, and a name or version that is none is refused before anything is written");
    c.assume("which rules are enabled by default, their groups and the versions they need are taken from the rules' declarations (compared with the published table by U03)");
    const CLI: [&[&str]; 3] = [
        &["", "any_is_na", "PERF", "any_is_na,TESTTHAT", "ALL", " equals_na , READ "],
        &["", "download_file", "TESTTHAT,any_is_na", "ALL"],
        &["", "any_is_na", "PERF,grepv", "ALL"],
    ];
    type L = Option<&'static [&'static str]>;
    const TOML: [&[L]; 3] = [
        &[None, Some(&[]), Some(&["any_duplicated"]), Some(&["READ", "any_is_na"]), Some(&["ALL"])],
        &[None, Some(&[]), Some(&["undesirable_function"]), Some(&["PERF", "assignment"])],
        &[None, Some(&[]), Some(&["class_equals", "any_is_na"]), Some(&["SUSP"])],
    ];
    let mut choices = vec![];
    for a in CLI[0] {
        for b in CLI[1] {
            for d in CLI[2] {
                for e in TOML[0] {
                    for f in TOML[1] {
                        for g in TOML[2] {
                            choices.push(Choice { cli: [a, b, d], toml: [*e, *f, *g] });
                        }
                    }
                }
            }
        }
    }
    // Names that are none, in one place, whatever the others are
    const NONE: &[&str] = &["nope", "any_is_na,,PERF", ",any_is_na", "perf", "Any_is_na", "any_is_na PERF", "any_is_na,nope", "all", "any_is_na;any_duplicated", " "];
    const NONES: &[&[&str]] = &[&["nope"], &[""], &["any_is_na", " "], &["perf"], &["any_is_na,PERF"], &["PERF", "nope"]];
    for at in 0..3 {
        for (i, e) in CLI[0].iter().enumerate() {
            for t in TOML[0] {
                let plain = Choice { cli: [e, CLI[1][i % 4], CLI[2][i % 3]], toml: [*t, None, Some(&["SUSP"])] };
                for n in NONE {
                    let mut x = plain.clone();
                    x.cli[at] = n;
                    choices.push(x);
                }
                for n in NONES {
                    let mut x = plain.clone();
                    x.toml[at] = Some(n);
                    choices.push(x);
                }
            }
        }
    }
    // Every rule by its name, and every group
    let names: Vec<&'static str> = Rule::all().iter().map(|r| r.name()).chain(jarl_core::rule_set::Category::ALL.iter().map(|c| c.as_str())).collect();
    for n in names {
        let one: &'static [&'static str] = Box::leak(Box::new([n]));
        for at in 0..3 {
            let mut x = Choice { cli: ["", "", ""], toml: [None; 3] };
            x.cli[at] = n;
            choices.push(x.clone());
            x.cli[at] = "";
            x.toml[at] = Some(one);
            choices.push(x);
        }
    }
    let text = lines();
    let t = text.clone();
    let pool = Pool::new("P01", move |d| write(d.join("a.R"), &t));
    let all: BTreeSet<String> = LINES.iter().map(|l| l.0.to_string()).collect();
    // What the text violates
    let base = pool.with(|d| {
        write(d.join("jarl.toml"), "");
        reported(&cli::run_in(d, &["check", "a.R", "--output-format", "json", "--select", "ALL", "--min-r-version", "99.0"]))
    });
    let base = match base {
        Ok(b) if all.is_subset(&b) => b,
        b => {
            c.violation("base", format!("with all rules, {b:?} are reported and not {all:?}"), json!({"base": true}));
            c.finish();
        }
    };
    c.extra("rules violated", json!(base.len()));
    let judge = |x: &Choice| -> Result<(), String> {
        pool.with(|d| {
            write(d.join("jarl.toml"), x.toml_text());
            let mut args = vec!["check", "a.R", "--output-format", "json", "--min-r-version", "4.4.0"];
            let flags = ["--select", "--extend-select", "--ignore"];
            for k in 0..3 {
                if !x.cli[k].is_empty() {
                    args.extend([flags[k], x.cli[k]]);
                }
            }
            let want = x.selected();
            if want.is_none() {
                args.extend(["--fix", "--unsafe-fixes", "--allow-no-vcs"]);
            }
            let got = reported(&cli::run_in(d, &args));
            let now = std::fs::read_to_string(d.join("a.R")).unwrap();
            if now != text {
                write(d.join("a.R"), &text);
                return Err("the file was changed".into());
            }
            match (want, got) {
                (None, Err(e)) if e.starts_with("Some(255)") => Ok(()),
                (None, g) => Err(format!("a name that is none is not refused: {g:?}")),
                (Some(_), Err(e)) => Err(e),
                (Some(w), Ok(g)) => {
                    let w: BTreeSet<String> = Rule::all().iter().filter(|r| w.contains(r.name()) && r.minimum_r_version().is_none_or(|v| v <= (4, 4, 0)) && base.contains(r.name())).map(|r| r.name().to_string()).collect();
                    if w == g {
                        Ok(())
                    } else {
                        Err(format!("missing {:?}, unexpected {:?}", w.difference(&g).collect::<Vec<_>>(), g.difference(&w).collect::<Vec<_>>()))
                    }
                }
            }
        })
    };
    // Versions
    const ARGS: &[Option<&str>] = &[None, Some("3.6"), Some("3.99.9"), Some("4.0"), Some("4.3.9"), Some("4.4"), Some("4.4.0"), Some("4.4.10"), Some("4.5.0"), Some("4.10"), Some("5.0"), Some("10.0.0"), Some("4.5.0.1"), Some("a.b"), Some("4.-1"), Some("4."), Some(""), Some("4.5.x")];
    const DESC: &[(Option<&str>, Option<&str>)] = &[
        (None, None),
        (Some("Package: p\nVersion: 4.5.0\n"), None),
        (Some("Package: p\nDepends: methods, stats (>= 4.5.0)\nImports: R (>= 4.5.0)\n"), None),
        (Some("Package: p\nDepends: R\n"), None),
        (Some("Package: p\nDepends: R (>= 3.5)\n"), Some("3.5")),
        (Some("Package: p\nDepends: R (>= 4)\n"), Some("4.0")),
        (Some("Package: p\nDepends: stats,\n    R (>= 4.4.1),\n    methods\nVersion: 1\n"), Some("4.4.1")),
        (Some("Package: p\nDepends: R(>=4.5.0)\n"), Some("4.5.0")),
        (Some("Package: p\nDepends: R (>= 4.10)\n"), Some("4.10")),
    ];
    // The file, the working directory, the argument
    const WHERE: &[(&str, &str, &str)] = &[("a.R", "", "."), ("R/a.R", "", "."), ("R/a.R", "", "R/a.R"), ("R/a.R", "R", "a.R"), ("R/a.R", "R", ".."), ("R/a.R", "R", "@"), ("tests/testthat/a.R", "tests", "testthat"), ("vignettes/v.Rmd", "", "vignettes"), ("a.R", "", "@")];
    let mut versions = vec![];
    for a in 0..ARGS.len() {
        for d in 0..DESC.len() {
            for w in 0..WHERE.len() {
                for s in ["", "ALL", "grepv", "coalesce,list2df,any_is_na"] {
                    versions.push((a, d, w, s));
                }
            }
        }
    }
    let vpool = Pool::new("P01v", |_| {});
    let vjudge = |(a, d, w, s): (usize, usize, usize, &'static str)| -> Result<(), String> {
        vpool.with(|dir| {
            let (file, cwd, arg) = WHERE[w];
            for n in ["a.R", "R", "tests", "vignettes", "DESCRIPTION"] {
                let p = dir.join(n);
                let _ = if p.is_dir() { std::fs::remove_dir_all(&p) } else { std::fs::remove_file(&p) };
            }
            let body = if file.ends_with("Rmd") { format!("```{{r}}\n{text}```\n") } else { text.clone() };
            write(dir.join(file), &body);
            if let Some(t) = DESC[d].0 {
                write(dir.join("DESCRIPTION"), t);
            }
            let arg = arg.replace('@', &dir.display().to_string());
            let mut args = vec!["check", &arg, "--output-format", "json"];
            if let Some(v) = ARGS[a] {
                args.extend(["--min-r-version", v]);
            }
            if !s.is_empty() {
                args.extend(["--select", s]);
            }
            let wrong = ARGS[a].is_some_and(|v| version(v).is_none());
            if wrong {
                args.extend(["--fix", "--allow-no-vcs"]);
            }
            let r = cli::run_home(&dir.join(cwd), dir, &args);
            if std::fs::read_to_string(dir.join(file)).unwrap() != body {
                return Err("the file was changed".into());
            }
            let got = reported(&r);
            if wrong {
                return match got {
                    Err(e) if e.starts_with("Some(255)") => Ok(()),
                    g => Err(format!("not refused: {g:?}")),
                };
            }
            let got = got?;
            let known = ARGS[a].or(DESC[d].1).map(|v| version(v).unwrap());
            let want: BTreeSet<String> = Rule::all()
                .iter()
                .filter(|r| base.contains(r.name()) && r.minimum_r_version().is_none_or(|v| known.is_some_and(|k| v <= k)))
                .filter(|r| match s {
                    "" => !r.is_disabled_by_default(),
                    s => s == "ALL" || s.split(',').any(|n| n == r.name()),
                })
                .map(|r| r.name().to_string())
                .collect();
            if want != got {
                return Err(format!("missing {:?}, unexpected {:?}", want.difference(&got).collect::<Vec<_>>(), got.difference(&want).collect::<Vec<_>>()));
            }
            Ok(())
        })
    };
    if let Some(r) = c.replay() {
        c.eval(1);
        let n = |k: &str| r[k].as_u64().unwrap() as usize;
        let e = if r["kind"] == json!("rules") { judge(&choices[n("index")]) } else { vjudge(versions[n("index")]) };
        if let Err(e) = e {
            c.violation("replayed", e, r.clone());
        }
        c.finish();
    }
    c.par(choices.len() as u64, |i| {
        c.eval(1);
        c.nontriv(1);
        let x = &choices[i as usize];
        if let Err(e) = judge(x) {
            c.violation("rules", format!("{:?} with {:?}: {e}", x.cli, x.toml_text()), json!({"kind": "rules", "index": i}));
        }
    });
    c.par(versions.len() as u64, |i| {
        c.eval(1);
        c.nontriv(1);
        let x = versions[i as usize];
        if let Err(e) = vjudge(x) {
            c.violation("versions", format!("--min-r-version {:?}, DESCRIPTION {:?}, {:?}, --select {:?}: {e}", ARGS[x.0], DESC[x.1].0, WHERE[x.2], x.3), json!({"kind": "versions", "index": i}));
        }
    });
    c.finish()
}

// ---------------------------------------------------------------- P02

/// Options of rules that list functions: table, option, defaults, a use of `@` and
/// whether it is reported for a function that is on the list.
const LISTS: &[(&str, &str, &[&str], &str, bool)] = &[
    ("duplicated_arguments", "skipped-functions", &["c", "mutate", "summarize", "transmute"], "@(a = 1, a = 2)", false),
    ("implicit_assignment", "skipped-functions", &["expect_error", "expect_warning", "expect_message", "expect_snapshot", "quote", "suppressMessages", "suppressWarnings"], "@(x <- 1)", false),
    ("undesirable_function", "functions", &["browser"], "@(x)", true),
    ("unreachable_code", "stopping-functions", &["stop", ".Defunct", "abort", "cli_abort", "q", "quit"], "h <- function() {\n  @('x')\n  1\n}", true),
];
/// Whatever follows `[lint]`, and whether it is right.
const CONFIGS: &[(&str, bool)] = &[
    ("", true),
    ("\n", true),
    ("# nothing\n", true),
    ("[lint]\n", true),
    ("[lint]\r\nselect = [\"PERF\"]\r\n", true),
    ("lint = { select = [\"PERF\"] }\n", true),
    ("lint.select = ['PERF']\nlint.ignore = []\n", true),
    ("[lint]\nselect = [\n  \"PERF\", # one\n  'any_is_na',\n]\nextend-select = [\"READ\"]\nignore = []\nfixable = [\"ALL\"]\nunfixable = []\nexclude = [\"z.R\"]\ninclude = []\ndefault-exclude = true\n", true),
    ("[lint]\nassignment = \"=\"\n", true),
    ("[lint.assignment]\noperator = \"<-\"\n", true),
    ("[lint.assignment]\n", true),
    ("[lint.unused_function]\nthreshold-ignore = 0\nskipped-functions = [\"^a\", \"b\\\\.c\"]\n", true),
    ("[lint.duplicated_arguments]\nextend-skipped-functions = [\"f\"]\n[lint.unreachable_code]\nstopping-functions = []\n", true),
    // wrong
    ("[lint\n", false),
    ("select = [\"PERF\"]\n", false),
    ("[format]\n", false),
    ("[lint]\n[lint]\n", false),
    ("[lint]\nselect = [\"PERF\"]\nselect = [\"READ\"]\n", false),
    ("[lint]\nselect = [\"PERF\"\n", false),
    ("[lint]\nselect = \"PERF\"\n", false),
    ("[lint]\nselect = [1]\n", false),
    ("[lint]\nselect = true\n", false),
    ("[lint]\nselekt = []\n", false),
    ("[lint]\nextend_select = []\n", false),
    ("[lint]\nSelect = []\n", false),
    ("[lint]\nmin-r = \"4.0\"\n", false),
    ("[lint]\nselect = [\"nope\"]\n", false),
    ("[lint]\nextend-select = [\"PERF\", \"nope\"]\n", false),
    ("[lint]\nignore = [\"\"]\n", false),
    ("[lint]\nfixable = [\"nope\"]\n", false),
    ("[lint]\nfixable = [\" \"]\n", false),
    ("[lint]\nunfixable = [\"perf\"]\n", false),
    ("[lint]\nunfixable = \"ALL\"\n", false),
    ("[lint]\nexclude = \"z.R\"\n", false),
    ("[lint]\ninclude = 1\n", false),
    ("[lint]\ndefault-exclude = \"yes\"\n", false),
    ("[lint]\nassignment = \"->\"\n", false),
    ("[lint]\nassignment = 1\n", false),
    ("[lint]\nassignment = [\"<-\"]\n", false),
    ("[lint.assignment]\noperator = \"<<-\"\n", false),
    ("[lint.assignment]\noperator = \"\"\n", false),
    ("[lint.assignment]\noperator = 1\n", false),
    ("[lint.assignment]\nop = \"<-\"\n", false),
    ("[lint.unused_function]\nthreshold-ignore = -1\n", false),
    ("[lint.unused_function]\nthreshold-ignore = \"50\"\n", false),
    ("[lint.unused_function]\nskipped-functions = [\"(\"]\n", false),
    ("[lint.unused_function]\nskipped-functions = \"a\"\n", false),
    ("[lint.unused_function]\nextend-skipped-functions = []\n", false),
    ("[lint.unused_function]\nthreshold = 1\n", false),
    ("[lint.duplicated_arguments]\nfunctions = []\n", false),
    ("[lint.duplicated_arguments]\nskipped-functions = \"c\"\n", false),
    ("[lint.implicit_assignment]\nskipped_functions = []\n", false),
    ("[lint.undesirable_function]\nskipped-functions = []\n", false),
    ("[lint.unreachable_code]\nfunctions = []\n", false),
    ("[lint.any_is_na]\n", false),
    // stands for bytes that are no text
    ("\u{0}", false),
];
fn p02() {
    let c = Check::new("P02", "exploration");
    c.rule("for every way to set each option of a rule (absent, empty, some functions, the defaults, as replacement or as extension), every kind of function and way to call it: the rule reports what the option says; for every wrong configuration (syntax, keys, types, values, names), wherever it is among right ones, with every kind of change requested: it is refused with an error and nothing is written; and every right one is accepted");
    let lists: Vec<Option<Vec<&str>>> = vec![None, Some(vec![]), Some(vec!["f"]), Some(vec!["f.g", "c"]), Some(vec!["stop", "quote", "f", "browser"]), Some(vec!["f2", "list2", "F"])];
    let functions = ["f", "f2", "f.g", "fxg", "F", "c", "mutate", "quote", "expect_error", "browser", "stop", ".Defunct", "quit", "pkg::f", "pkg::c", "pkg:::stop", "base::quote", "f::g", "c::f2", "browser::g", "base::browser"];
    let pool = Pool::new("P02", |_| {});
    // --- options
    let mut texts = vec![];
    for l in LISTS {
        texts.push(functions.iter().map(|f| l.3.replace('@', f)).collect::<Vec<_>>());
    }
    let options = lists.len() * lists.len() * LISTS.len() * 2;
    let option = |i: usize| -> Result<u64, (String, String)> {
        let (l, rest) = (&LISTS[i % LISTS.len()], i / LISTS.len());
        let inline = rest % 2 == 1;
        let (base, extend) = (&lists[rest / 2 % lists.len()], &lists[rest / 2 / lists.len()]);
        let mut body = vec![];
        for (n, v) in [(l.1.to_string(), base), (format!("extend-{}", l.1), extend)] {
            if let Some(v) = v {
                body.push(format!("{n} = {v:?}"));
            }
        }
        let toml = if inline { format!("[lint]\n{} = {{ {} }}\n", l.0, body.join(", ")) } else { format!("[lint.{}]\n{}\n", l.0, body.join("\n")) };
        let bad = |s: String| (l.0.to_string(), format!("{toml:?}: {s}"));
        pool.with(|d| {
            let _ = std::fs::remove_dir_all(d.join("p"));
            write(d.join("p/jarl.toml"), &toml);
            for (k, f) in functions.iter().enumerate() {
                write(d.join(format!("p/f{k}.R")), format!("{}\n", l.3.replace('@', f)));
            }
            let r = cli::run_in(&d.join("p"), &["check", ".", "--select", l.0, "--output-format", "json"]);
            if base.is_some() && extend.is_some() {
                return if r.status == Some(255) && !r.err.is_empty() { Ok(1) } else { Err(bad(format!("both lists are accepted: {:?} {}", r.status, r.out))) };
            }
            if !matches!(r.status, Some(0 | 1)) {
                return Err(bad(format!("fails with {:?}: {}", r.status, r.err)));
            }
            let v: Value = serde_json::from_str(&r.out).map_err(|e| bad(e.to_string()))?;
            let files: BTreeSet<&str> = v["diagnostics"].as_array().unwrap().iter().map(|d| Path::new(d["filename"].as_str().unwrap()).file_stem().unwrap().to_str().unwrap()).collect();
            let mut set: BTreeSet<&str> = match base {
                Some(b) => b.iter().copied().collect(),
                None => l.2.iter().copied().collect(),
            };
            set.extend(extend.iter().flatten().copied());
            for (k, f) in functions.iter().enumerate() {
                let listed = set.contains(f.rsplit(':').next().unwrap());
                let want = listed == l.4;
                let got = files.contains(format!("f{k}").as_str());
                if got != want {
                    return Err(bad(format!("{f} is {}reported", if got { "" } else { "not " })));
                }
            }
            Ok(functions.len() as u64)
        })
    };
    // --- assignment
    let legacy = [None, Some("assignment = \"<-\"\n"), Some("assignment = \"=\"\n"), Some("[lint.assignment]\noperator = \"<-\"\n"), Some("[lint.assignment]\noperator = \"=\"\n"), Some("[lint.assignment]\n"), Some("assignment = { operator = \"=\" }\n")];
    let given = [None, Some("<-"), Some("="), Some("->"), Some(""), Some("<<-"), Some("==")];
    let assignment = |i: usize| -> Result<u64, (String, String)> {
        let (t, g) = (legacy[i % legacy.len()], given[i / legacy.len()]);
        let bad = |s: String| ("assignment".to_string(), format!("{t:?} with --assignment {g:?}: {s}"));
        pool.with(|d| {
            let _ = std::fs::remove_dir_all(d.join("p"));
            write(d.join("p/jarl.toml"), format!("[lint]\n{}", t.unwrap_or_default()));
            let text = "x = 1\nx <- 2\nf(a = 1)\n";
            write(d.join("p/a.R"), text);
            let mut args = vec!["check", ".", "--select", "assignment", "--output-format", "json", "--fix", "--allow-no-vcs"];
            let joined = g.map(|g| format!("--assignment={g}"));
            args.extend(joined.as_deref());
            let r = cli::run_in(&d.join("p"), &args);
            let now = std::fs::read_to_string(d.join("p/a.R")).unwrap();
            if !matches!(g, None | Some("<-" | "=")) {
                return if matches!(r.status, Some(2 | 255)) && now == text { Ok(1) } else { Err(bad(format!("is not refused: {:?}, {now:?}", r.status))) };
            }
            let equal = match g {
                Some(g) => g == "=",
                None => t.is_some_and(|t| t.contains("\"=\"")),
            };
            let want = if equal { "x = 1\nx = 2\nf(a = 1)\n" } else { "x <- 1\nx <- 2\nf(a = 1)\n" };
            if now == want {
                Ok(1)
            } else {
                Err(bad(format!("{now:?} ({:?} {})", r.status, r.err)))
            }
        })
    };
    // --- configurations: where it is, what is asked for
    const SITES: &[&str] = &["p/jarl.toml", "p/.jarl.toml", "p/sub/jarl.toml", ".config/jarl/jarl.toml", "jarl.toml"];
    const ASKED: &[&[&str]] = &[&[], &["--fix", "--allow-no-vcs"], &["--fix-only", "--unsafe-fixes", "--allow-no-vcs", "--select", "ALL"], &["--add-jarl-ignore=why"], &["--statistics"], &["--output-format", "json"], &["--ignore", "READ", "--no-default-exclude"]];
    let text = "any(is.na(x))\nx = 1\n";
    let config = |i: usize| -> Result<u64, (String, String)> {
        let ((toml, right), rest) = (CONFIGS[i % CONFIGS.len()], i / CONFIGS.len());
        let (site, asked) = (SITES[rest % SITES.len()], ASKED[rest / SITES.len()]);
        let bad = |k: &str, s: String| (k.to_string(), format!("{site} {toml:?}, {asked:?}: {s}"));
        pool.with(|d| {
            for n in ["p", ".config"] {
                let _ = std::fs::remove_dir_all(d.join(n));
            }
            let _ = std::fs::remove_file(d.join("jarl.toml"));
            let files = ["p/a.R", "p/other/a.R", "p/sub/a.R"];
            for f in files {
                write(d.join(f), text);
            }
            if !site.starts_with("p/j") && !site.starts_with("p/.") && !site.starts_with('.') && site != "jarl.toml" {
                write(d.join("p/jarl.toml"), "[lint]\n");
            }
            write(d.join("p/other/jarl.toml"), "[lint]\nselect = [\"PERF\"]\n");
            if toml == "\u{0}" { write(d.join(site), b"# \xff\xfe\n") } else { write(d.join(site), toml) }
            let mut args = vec!["check", "."];
            args.extend(asked);
            let r = cli::run_home(&d.join("p"), d, &args);
            let changed = files.iter().any(|f| std::fs::read_to_string(d.join(f)).unwrap() != text);
            match (right, r.status) {
                (true, Some(0 | 1)) => Ok(1),
                (true, s) => Err(bad("refused", format!("{s:?}: {}", r.err))),
                (false, Some(255)) if changed => Err(bad("changed", "an error is reported and files are changed".into())),
                (false, Some(255)) if r.err.trim().is_empty() => Err(bad("silent", "fails without saying why".into())),
                (false, Some(255)) => Ok(1),
                (false, s) => Err(bad("accepted", format!("is not refused: {s:?} {} {}", r.out, r.err))),
            }
        })
    };
    let assignments = legacy.len() * given.len();
    let configs = CONFIGS.len() * SITES.len() * ASKED.len();
    let run = |i: usize| {
        let r = if i < options {
            option(i)
        } else if i < options + assignments {
            assignment(i - options)
        } else {
            config(i - options - assignments)
        };
        match r {
            Ok(n) => {
                c.eval(n);
                c.nontriv(n);
            }
            Err((sig, what)) => c.violation(&sig, what, json!({"index": i})),
        }
    };
    if let Some(r) = c.replay() {
        run(r["index"].as_u64().unwrap() as usize);
        c.finish();
    }
    c.par((options + assignments + configs) as u64, |i| run(i as usize));
    c.finish()
}

// ---------------------------------------------------------------- P08
/// Whether `v` is valid: the part of JSON Schema that such schemas use.
fn valid(root: &Value, schema: &Value, v: &Value) -> bool {
    let o = match schema {
        Value::Bool(b) => return *b,
        s => s.as_object().expect("a schema"),
    };
    let kind = |t: &str| match t {
        "null" => v.is_null(),
        "boolean" => v.is_boolean(),
        "string" => v.is_string(),
        "array" => v.is_array(),
        "object" => v.is_object(),
        "number" => v.is_number(),
        "integer" => v.is_i64() || v.is_u64() || v.as_f64().is_some_and(|f| f.fract() == 0.0),
        t => panic!("type {t} in the schema"),
    };
    let members = || v.as_object().into_iter().flatten();
    o.iter().all(|(key, s)| match key.as_str() {
        "$ref" => valid(root, root.pointer(s.as_str().unwrap().trim_start_matches('#')).expect("reference in the schema"), v),
        "anyOf" => s.as_array().unwrap().iter().any(|s| valid(root, s, v)),
        "allOf" => s.as_array().unwrap().iter().all(|s| valid(root, s, v)),
        "oneOf" => s.as_array().unwrap().iter().filter(|s| valid(root, s, v)).count() == 1,
        "not" => !valid(root, s, v),
        "type" => match s {
            Value::String(t) => kind(t),
            ts => ts.as_array().unwrap().iter().any(|t| kind(t.as_str().unwrap())),
        },
        "enum" => s.as_array().unwrap().contains(v),
        "const" => s == v,
        "minimum" => v.as_f64().is_none_or(|n| n >= s.as_f64().unwrap()),
        "maximum" => v.as_f64().is_none_or(|n| n <= s.as_f64().unwrap()),
        "minItems" => v.as_array().is_none_or(|a| a.len() as u64 >= s.as_u64().unwrap()),
        "required" => !v.is_object() || s.as_array().unwrap().iter().all(|k| v.get(k.as_str().unwrap()).is_some()),
        "items" => v.as_array().is_none_or(|a| a.iter().all(|v| valid(root, s, v))),
        "uniqueItems" => v.as_array().is_none_or(|a| a.iter().enumerate().all(|(i, x)| !a[..i].contains(x))),
        "properties" => members().all(|(k, v)| s.get(k).is_none_or(|s| valid(root, s, v))),
        "additionalProperties" => members().all(|(k, v)| o.get("properties").is_some_and(|p| p.get(k).is_some()) || valid(root, s, v)),
        "$schema" | "$id" | "$defs" | "title" | "description" | "default" | "format" | "examples" | "deprecated" | "$comment" => true,
        k => panic!("keyword {k} in the schema"),
    })
}
fn to_toml(v: &Value) -> String {
    match v {
        Value::Object(o) => format!("{{ {} }}", o.iter().map(|(k, v)| format!("{k} = {}", to_toml(v))).collect::<Vec<_>>().join(", ")),
        Value::Array(a) => format!("[{}]", a.iter().map(to_toml).collect::<Vec<_>>().join(", ")),
        v => v.to_string(),
    }
}
/// The rules with options, and these.
const OPTIONS: &[(&str, &[&str])] = &[
    ("assignment", &["operator"]),
    ("duplicated_arguments", &["skipped-functions", "extend-skipped-functions"]),
    ("implicit_assignment", &["skipped-functions", "extend-skipped-functions"]),
    ("undesirable_function", &["functions", "extend-functions"]),
    ("unreachable_code", &["stopping-functions", "extend-stopping-functions"]),
    ("unused_function", &["threshold-ignore", "skipped-functions"]),
];
const FIELDS: &[&str] = &["select", "extend-select", "ignore", "fixable", "unfixable", "include", "exclude", "default-exclude"];

fn p08() {
    let c = Check::new("P08", "exploration");
    c.rule("every configuration with one or two entries: every documented key, every key one step from one, with values of every type, at the top, in [lint] and in the options of every rule, the values valid where the type is; the published JSON schema accepts it exactly if jarl does");
    c.assume("values that are wrong although their type is right (names of rules, operators, two exclusive lists) cannot be told by the schema and are left out");
    let repo = std::env::var("VERIF_REPO").unwrap_or("/repo".into());
    let file = Path::new(&repo).join("artifacts/jarl.schema.json");
    let schema: Value = serde_json::from_str(&std::fs::read_to_string(&file).expect("the schema")).expect("the schema is JSON");
    let values = |key: &str| -> Vec<Value> {
        let s = if key == "assignment" || key == "operator" { "<-" } else { "any_is_na" };
        vec![
            json!(s), json!(5), json!(0), json!(-1), json!(1.5), json!(true), json!(false), json!([]), json!([s]), json!([s, s]), json!([1]), json!([s, 1]), json!([[s]]), json!({}), json!({"operator": "<-"}),
            json!({"functions": ["f"]}), json!({"select": ["any_is_na"]}), json!({"a": 1}),
        ]
    };
    let near = |key: &str| -> Vec<String> {
        let mut v = vec![key.to_string(), format!("{key}s"), format!("{}{}", key[..1].to_uppercase(), &key[1..]), key.replace('-', "_"), key.replace('_', "-"), key.replace(['-', '_'], ""), key[..key.len() - 1].to_string(), key.to_uppercase()];
        v.dedup();
        v
    };
    let mut docs: BTreeSet<String> = BTreeSet::new();
    let mut add = |v: Value| {
        docs.insert(v.to_string());
    };
    add(json!({}));
    for k in ["lint", "Lint", "lints", "linter", "format", "select", "global", "a"] {
        for v in values(k) {
            add(json!({k: v}));
            add(json!({k: v, "lint": {"select": ["any_is_na"]}}));
        }
    }
    let pool = Pool::new("P08", |d| write(d.join("a.R"), "any(is.na(x))\n"));
    // Names jarl itself gives when it refuses one, and names other tools have.
    let told = |toml: &str| -> BTreeSet<String> {
        let r = pool.with(|d| {
            write(d.join("jarl.toml"), toml);
            cli::run_in(d, &["check", "."])
        });
        r.err.split('`').skip(1).step_by(2).filter(|w| !w.is_empty() && w.chars().all(|c| c.is_ascii_alphanumeric() || "-_.".contains(c))).map(String::from).collect()
    };
    const OTHER: &[&str] = &[
        "only", "files", "paths", "rules", "rule", "enable", "disable", "enabled", "disabled", "warn", "deny", "allow", "extend", "extends", "cache", "fix", "unsafe-fixes", "unsafe", "level", "severity", "threads", "target-version",
        "r-version", "version", "src", "source", "default", "defaults", "excludes", "extend-exclude", "extend-include", "force-exclude", "ignored", "per-file-ignores", "preview", "options", "linters", "exclusions", "encoding", "project", "root",
        "no-default-exclude", "respect-gitignore", "output-format", "allow", "skip", "names", "functions", "function", "threshold", "packages", "package", "operators", "style", "value", "set", "list", "min_r_version", "extend-fixable", "extend-unfixable", "extend-ignore",
    ];
    for n in told("zzz = 1\n").iter().map(String::as_str).chain(OTHER.iter().copied()) {
        for v in values(n) {
            add(json!({n: v}));
        }
    }
    for n in told("[lint]\nzzz = 1\n").iter().map(String::as_str).chain(OTHER.iter().copied()) {
        for v in values(n) {
            add(json!({"lint": {n: v}}));
        }
    }
    for t in OPTIONS.iter().map(|o| o.0) {
        for n in told(&format!("[lint.{t}]\nzzz = 1\n")).iter().map(String::as_str).chain(OTHER.iter().copied()) {
            for v in values(n) {
                add(json!({"lint": {t: {n: v}}}));
            }
        }
    }
    let tables: Vec<&str> = OPTIONS.iter().map(|o| o.0).collect();
    let fields: Vec<&str> = FIELDS.iter().chain(&tables).copied().collect();
    for k in fields.iter().chain(&["any_is_na", "min-r-version", "line-length", "x"]) {
        for n in near(k) {
            for v in values(k) {
                add(json!({"lint": {&n: v}}));
                for other in FIELDS {
                    let w = if *other == "default-exclude" { json!(true) } else { json!(["any_is_na"]) };
                    add(json!({"lint": {*other: w, &n: v}}));
                }
            }
        }
    }
    let options: BTreeSet<&str> = OPTIONS.iter().flat_map(|o| o.1).copied().collect();
    for t in &tables {
        for k in &options {
            for n in near(k) {
                for v in values(k) {
                    add(json!({"lint": {*t: {&n: v}}}));
                    if *t == "unused_function" {
                        add(json!({"lint": {*t: {"threshold-ignore": 3, &n: v}}}));
                    }
                    for u in tables.iter().filter(|u| *u != t).take(c.pick(1, 5)) {
                        add(json!({"lint": {*t: {&n: v}, *u: {}}}));
                    }
                }
            }
        }
    }
    let docs: Vec<String> = docs.into_iter().collect();
    let judge = |text: &str| -> Result<bool, (String, String)> {
        let doc: Value = serde_json::from_str(text).unwrap();
        let toml: String = doc.as_object().unwrap().iter().map(|(k, v)| format!("{k} = {}\n", to_toml(v))).collect();
        let ours = valid(&schema, &schema, &doc);
        pool.with(|d| {
            write(d.join("jarl.toml"), &toml);
            let r = cli::run_in(d, &["check", "."]);
            match (r.status, ours) {
                (Some(0 | 1), true) | (Some(255), false) => Ok(ours),
                (Some(0 | 1), false) => Err(("accepted".into(), format!("{toml:?} is accepted by jarl, but not by its schema"))),
                (Some(255), true) => Err(("refused".into(), format!("{toml:?} is accepted by the schema, but jarl says {}", r.err))),
                (s, _) => Err(("status".into(), format!("{toml:?}: {s:?} {}", r.err))),
            }
        })
    };
    let run = |i: usize, doc: &str| {
        c.eval(1);
        match judge(doc) {
            Ok(a) => {
                c.outcome(if a { "accepted by both" } else { "refused by both" }, 1);
                c.nontriv((doc != "{}") as u64);
                if i % 3001 == 0 {
                    c.sample(json!(doc));
                }
            }
            Err((sig, what)) => c.violation(&sig, what, json!({"document": doc})),
        }
    };
    if let Some(r) = c.replay() {
        run(1, r["document"].as_str().unwrap());
        c.finish();
    }
    c.par(docs.len() as u64, |i| run(i as usize, &docs[i as usize]));
    c.finish()
}

// ---------------------------------------------------------------- P09
fn p09() {
    let c = Check::new("P09", "exploration");
    c.rule("every combination of the deprecated option on the command line, the assignment operator in one or two configurations in the old, the new or no form, a deprecated rule, another rule, a group or nothing named in each of the places where rules are named, all kinds of report and files with and without violations; the warnings of the report are exactly those that apply, once each, and there are none in the formats for programs");
    const FLAG: &[Option<&str>] = &[None, Some("--assignment=<-"), Some("--assignment==")];
    const FORM: &[&str] = &["", "assignment = \"<-\"\n", "[lint.assignment]\noperator = \"=\"\n"];
    // in a directory below: no configuration, an empty one, ...
    const BELOW: &[Option<&str>] = &[None, Some(""), Some("assignment = \"=\"\n"), Some("ignore = [\"browser\"]\n"), Some("[lint.assignment]\n"), Some("extend-select = [\"browser\", \"any_is_na\"]\n")];
    const PLACES: &[&str] = &["--select", "--extend-select", "--ignore", "select", "extend-select", "ignore", "fixable", "unfixable"];
    const NAMES: &[&str] = &["", "browser", "undesirable_function", "any_is_na,browser", "ALL", "CORR"];
    const FILES: &[&str] = &["any(is.na(x))\n", "1\n", "f(\n", "browser()\n"];
    const REPORTS: &[(&str, bool)] = &[("full", true), ("concise", true), ("json", false), ("github", false)];
    let dims = [FLAG.len(), FORM.len(), BELOW.len(), PLACES.len(), NAMES.len(), c.pick(2, FILES.len()), c.pick(3, REPORTS.len())];
    let product = mcx::Product::new(&dims);
    let pool = Pool::new("P09", |_| {});
    let judge = |i: u64| -> Result<usize, (String, String)> {
        let mut v = vec![];
        product.get(i, &mut v);
        let (flag, form, below, place, names, text, (report, human)) = (FLAG[v[0]], FORM[v[1]], BELOW[v[2]], PLACES[v[3]], NAMES[v[4]], FILES[v[5]], REPORTS[v[6]]);
        if names.is_empty() && v[3] > 0 {
            return Ok(0);
        }
        let on_line = place.starts_with("--");
        let list = names.split(',').map(|n| format!("{n:?}")).collect::<Vec<_>>().join(", ");
        let mut toml = String::from("[lint]\n");
        if !on_line && !names.is_empty() {
            toml.push_str(&format!("{place} = [{list}]\n"));
        }
        toml.push_str(form);
        let mut args = vec!["check".to_string(), ".".into(), format!("--output-format={report}")];
        args.extend(flag.map(String::from));
        if on_line && !names.is_empty() {
            args.push(format!("{place}={names}"));
        }
        let run = pool.with(|d| {
            let _ = std::fs::remove_dir_all(d.join("p"));
            write(d.join("p/jarl.toml"), &toml);
            write(d.join("p/a.R"), text);
            write(d.join("p/s/a.R"), text);
            if let Some(b) = below {
                write(d.join("p/s/jarl.toml"), format!("[lint]\n{b}"));
            }
            cli::run_in(&d.join("p"), &args.iter().map(String::as_str).collect::<Vec<_>>())
        });
        let bad = |k: &str, s: String| (k.to_string(), format!("{toml:?}, below {below:?}, {args:?}, files {text:?}: {s}\n{}{}", run.out, run.err));
        if !matches!(run.status, Some(0 | 1 | 255)) || run.status == Some(255) && text != "f(\n" {
            return Err(bad("status", format!("{:?}", run.status)));
        }
        let all = format!("{}{}", run.out, run.err);
        let count = |s: &str| all.matches(s).count();
        // only naming it for selection counts, not naming it as fixable
        let named = names.contains("browser") && !place.ends_with("fixable") || below.is_some_and(|b| b.contains("browser"));
        let old = (form.starts_with("assignment")) as usize + below.is_some_and(|b| b.starts_with("assignment")) as usize;
        let got = (count("`--assignment` is deprecated"), count("Argument `assignment` in `[lint]` is deprecated"), count("Rule `browser` is deprecated"));
        if human {
            // a configuration each, or once for all
            if got.0 != flag.is_some() as usize || (got.1 > 0) != (old > 0) || got.1 > old || got.2 != named as usize {
                return Err(bad("warnings", format!("warnings of the option, the field, the rule: {got:?}, {} {old} {named} due", flag.is_some())));
            }
            if count("deprecated") != got.0 + got.1 + got.2 {
                return Err(bad("more", "more is called deprecated".into()));
            }
        } else if count("deprecated") > 0 {
            return Err(bad("program", "a report for programs holds a warning".into()));
        }
        Ok(1 + got.0 + got.1 + got.2)
    };
    let run = |i: u64| match judge(i) {
        Ok(n) => {
            c.eval((n > 0) as u64);
            c.nontriv((n > 1) as u64);
            c.outcome(&format!("{} warnings", n.saturating_sub(1)), 1);
        }
        Err((sig, what)) => c.violation(&sig, what, json!({"index": i})),
    };
    if let Some(r) = c.replay() {
        run(r["index"].as_u64().unwrap());
        c.finish();
    }
    c.par(product.count(), run);
    c.finish()
}

// ---------------------------------------------------------------- X01
/// What a file holds: its name, its text, whether it can be checked, and whether
/// it has a finding of `any_is_na`, one of another rule, and whether these are fixed.
const KINDS: &[(&str, &[u8], bool, bool, bool, bool)] = &[
    ("", b"", true, false, false, false),
    ("R", b"x <- 1\n", true, false, false, false),
    ("R", b"any(is.na(x))\n", true, true, false, true),
    ("R", b"any(is.na(x # c\n))\n", true, true, false, false),
    ("R", b"f(\n", false, false, false, false),
    ("R", b"\"\xff\"\n", false, false, false, false),
    ("R", b"x == NA\n", true, false, true, true),
    ("R", b"# jarl-ignore any_is_na: no\nany(is.na(x))\n", true, false, false, false),
    ("R", b"", true, false, false, false),
    ("R", b"any(is.na(x))\nf)\n", false, false, false, false),
    ("Rmd", b"Text\n\n```{r}\nany(is.na(x))\n```\n", true, true, false, false),
    ("qmd", b"```{r}\nx <- 1\n```\n", true, false, false, false),
    ("Rmd", b"```{r}\nf(\n```\n", true, false, false, false),
    ("Rmd", b"\xff\n", false, false, false, false),
];
fn x01() {
    let c = Check::new("X01", "exploration");
    c.rule("every combination of files of each kind (clean, with findings that can be fixed or not, hidden ones, unparsable, not text, documents), configurations and options; (the last two of both with one format only); the exit status of the process is 255 if something failed (a file, the configuration, the rules asked for, a fix without version control), else 1 if findings remain that are reported, else 0");
    c.assume("--add-jarl-ignore has no findings left; options that do not exist are refused by the argument parser, and do not make a run");
    // Some(which rules are on: any_is_na, equals_na, outdated_suppression), or broken
    const CONFIGS: &[(Option<&str>, Option<(bool, bool, bool)>)] = &[
        (None, Some((true, true, true))),
        (Some("[lint]\nselect = [\"any_is_na\"]\n"), Some((true, false, false))),
        (Some("[lint]\nignore = [\"any_is_na\"]\n"), Some((false, true, true))),
        (Some("[lint]\nselect = [\"PERF\"]\nignore = [\"PERF\"]\n"), Some((false, false, false))),
        (Some("[lint\n"), None),
        (Some("[lint]\nselect = [\"no_rule\"]\n"), None),
        (Some("[lint]\nno-field = 1\n"), None),
    ];
    // option, on the command line; what it makes of the run
    const OPTIONS: &[(&[&str], &str)] = &[
        (&[], ""),
        (&["--fix", "--allow-no-vcs"], "fix"),
        (&["--fix", "--unsafe-fixes", "--allow-no-vcs"], "fix"),
        (&["--fix-only", "--allow-no-vcs"], "quiet"),
        (&["--fix-only", "--unsafe-fixes", "--allow-no-vcs"], "quiet"),
        (&["--statistics"], ""),
        (&["--add-jarl-ignore=why"], "ignore"),
        (&["--fix"], "fails"),
        (&["--add-jarl-ignore=a\nb"], "fails"),
        (&["--with-timing"], ""),
        (&["--log-level=trace"], ""),
    ];
    const FORMATS: &[&[&str]] = &[&[], &["--output-format=concise"], &["--output-format=json"], &["--output-format=github"]];
    const SELECTS: &[(&[&str], Option<(bool, bool)>)] = &[(&[], Some((true, true))), (&["--ignore=any_is_na"], Some((false, true))), (&["--ignore=no_rule"], None), (&["--min-r-version=x"], None)];
    let slots = c.pick(2, 3);
    let mut dims = vec![CONFIGS.len(), OPTIONS.len(), FORMATS.len(), SELECTS.len()];
    dims.extend(vec![KINDS.len(); slots]);
    let product = mcx::Product::new(&dims);
    let pool = Pool::new("X01", |_| {});
    let judge = |i: u64| -> Result<usize, (String, String)> {
        let mut v = vec![];
        product.get(i, &mut v);
        let ((toml, on), (opts, sense), format, (select, also)) = (CONFIGS[v[0]], OPTIONS[v[1]], FORMATS[v[2]], SELECTS[v[3]]);
        let kinds: Vec<_> = v[4..].iter().map(|k| KINDS[*k]).collect();
        // the order of files does not matter for what is written, each set once
        if v[4..].windows(2).any(|w| w[0] > w[1]) || kinds.iter().all(|k| k.0.is_empty()) {
            return Ok(9);
        }
        if v[2] > 0 && (v[3] > 1 || v[1] > 8) {
            return Ok(9);
        }
        let (wrong, left) = match (on, also) {
            (Some(a), Some(b)) => {
                let (na, other) = (a.0 && b.0, a.1 && b.1);
                (kinds.iter().any(|k| !k.2), kinds.iter().any(|k| ((k.3 && na) || (k.4 && other) || (k.1.starts_with(b"# jarl-ignore") && a.2 && !na)) && !(sense == "fix" && k.5)))
            }
            _ => (true, false),
        };
        let want = if wrong || sense == "fails" { 255 } else if left && sense != "ignore" && sense != "quiet" { 1 } else { 0 };
        // a reason with a line break does not matter if there is nothing to do; left open
        if opts == ["--add-jarl-ignore=a\nb"] && !left && !wrong {
            return Ok(9);
        }
        let mut args = vec!["check", "."];
        args.extend(opts.iter().chain(format).chain(select));
        let (ran, was) = pool.with(|d| {
            let _ = std::fs::remove_dir_all(d.join("p"));
            for (n, k) in kinds.iter().enumerate().filter(|(_, k)| !k.0.is_empty()) {
                write(d.join(format!("p/{n}.{}", k.0)), k.1);
            }
            if let Some(t) = toml {
                write(d.join("p/jarl.toml"), t);
            }
            (cli::run_in(&d.join("p"), &args), kinds.iter().map(|k| String::from_utf8_lossy(k.1).to_string()).collect::<Vec<_>>())
        });
        if ran.status == Some(want) {
            return Ok(match want {
                0 => 0,
                1 => 1,
                _ => 2,
            });
        }
        Err((format!("{want} not {:?} {}", ran.status, opts.join(" ")), format!("{:?}, configuration {:?}, files {was:?}: {:?} instead of {want}\n{}\n{}", args.join(" "), toml, ran.status, ran.out, ran.err).chars().take(900).collect()))
    };
    let run = |i: u64| match judge(i) {
        Ok(9) => {}
        Ok(n) => {
            c.eval(1);
            c.nontriv((n > 0) as u64);
            c.outcome(["clean", "findings", "failure"][n], 1);
        }
        Err((sig, what)) => c.violation(&sig, what, json!({"case": i})),
    };
    if let Some(r) = c.replay() {
        run(r["case"].as_u64().unwrap());
        c.finish();
    }
    c.par(product.count(), run);
    c.finish()
}
