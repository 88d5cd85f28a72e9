//! P10: what happens when reading or writing fails, or jarl is ended in between, at
//! every point of a run at which that is possible. P11: the same for what is printed.
use checks2::*;
use mcx::{json, Check, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "P10" => p10(),
        "P11" => p11(),
        _ => {
            eprintln!("faults P10 P11");
            std::process::exit(2)
        }
    }
}

/// The kinds of files.
const KINDS: &[(&str, &str)] = &[
    (".R", "any(is.na(x))\n"),
    // two passes: the outer violation overlaps the inner one
    (".R", "if (any(is.na(any(is.na(x))))) any(duplicated(y))\n"),
    (".R", "f <- 1\n"),
    // only with unsafe fixes
    (".R", "x == TRUE\nall.equal(x, y) == TRUE\nif (!all.equal(x, y)) 1\n"),
    (".Rmd", "# T\n\n```{r}\nany(is.na(x))\n```\n"),
    (".R", "f(\n"),
    (".R", ""),
    (".R", "é <- '\u{1F600}'; any(is.na(x)) # c\r\nany(duplicated(x))"),
];
/// The modes, and whether the report is JSON.
const MODES: &[(&[&str], bool)] = &[
    (&["--output-format=json"], true),
    (&["--fix", "--output-format=json"], true),
    (&["--fix", "--unsafe-fixes", "--output-format=json"], true),
    (&["--fix-only", "--output-format=json"], true),
    (&["--add-jarl-ignore=why"], false),
    (&["--output-format=concise"], false),
    (&["--fix"], false),
    (&["--statistics"], false),
    (&["--output-format=github"], false),
];
/// Configurations and other files besides.
const AROUND: &[&[(&str, &str)]] = &[
    &[],
    &[("jarl.toml", "[lint]\nselect = [\"ALL\"]\n")],
    &[("jarl.toml", "[lint]\nselect = [\"PERF\"]\n"), ("s/jarl.toml", "[lint]\nextend-select = [\"assignment\"]\n")],
    &[(".config/jarl/jarl.toml", "[lint]\nselect = [\"PERF\", \"READ\"]\n")],
];

#[derive(Clone, PartialEq, Debug)]
struct End {
    status: Option<i32>,
    out: String,
    err: String,
    files: BTreeMap<String, String>,
    log: Vec<(String, String)>,
}
struct Scene<'a> {
    tree: Vec<(String, String)>,
    mode: &'a [&'a str],
    json: bool,
    threads: &'a str,
    /// Whether what is printed counts as operations.
    std: bool,
}

fn put(d: &Path, tree: &[(String, String)]) {
    for e in std::fs::read_dir(d).unwrap().flatten() {
        let p = e.path();
        let _ = if p.is_dir() { std::fs::remove_dir_all(&p) } else { std::fs::remove_file(&p) };
    }
    for (n, t) in tree {
        std::fs::create_dir_all(d.join(n).parent().unwrap()).unwrap();
        std::fs::write(d.join(n), t).unwrap();
    }
}
/// Runs `jarl` in `d` as it is.
fn go(d: &Path, shim: &Path, s: &Scene, fail: Option<&str>) -> End {
    let log = d.with_extension("log");
    let _ = std::fs::remove_file(&log);
    let mut c = Command::new(cli::jarl());
    c.arg("check").arg(".").args(s.mode).arg("--allow-no-vcs").current_dir(d).env_clear();
    c.env("HOME", d).env("NO_COLOR", "1").env("RAYON_NUM_THREADS", s.threads).env("LD_PRELOAD", shim).env("MCXF_ROOT", d).env("MCXF_LOG", &log);
    if let Some(f) = fail {
        c.env("MCXF_FAIL", f);
    }
    if s.std {
        c.env("MCXF_STD", "1");
    }
    let o = c.stdin(Stdio::null()).output().expect("run jarl");
    let text = |b: Vec<u8>| String::from_utf8_lossy(&b).into_owned();
    End {
        status: o.status.code(),
        out: text(o.stdout),
        err: text(o.stderr),
        files: s.tree.iter().map(|(n, _)| (n.clone(), text(std::fs::read(d.join(n)).unwrap_or_default()))).collect(),
        log: std::fs::read_to_string(&log).unwrap_or_default().lines().filter_map(|l| l.split_once(' ')).map(|(a, b)| (a.into(), b.into())).collect(),
    }
}
/// Directories to run in, and the compiled shim.
struct Place {
    base: Scratch,
    shim: PathBuf,
    free: Mutex<Vec<PathBuf>>,
}
impl Place {
    fn new(name: &str) -> Place {
        let base = Scratch::new(name);
        base.enter();
        let shim = base.dir.join("shim.so");
        let source = Path::new(&mcx::verif_root()).join("harness2/faults/shim.c");
        let st = Command::new("gcc").args(["-shared", "-fPIC", "-O1", "-o"]).arg(&shim).arg(&source).status().expect("gcc");
        assert!(st.success(), "the shim does not compile");
        Place { base, shim, free: Mutex::default() }
    }
    fn with(&self, f: &mut dyn FnMut(&Path)) {
        let d = self.free.lock().unwrap().pop().unwrap_or_else(|| {
            let s = self.base.sub();
            let d = s.dir.clone();
            std::mem::forget(s);
            d
        });
        f(&d);
        self.free.lock().unwrap().push(d);
    }
}
fn is_code(n: &str) -> bool {
    n.ends_with(".R") || n.ends_with(".Rmd")
}
/// The findings and the errors of a JSON report, by file.
fn findings(out: &str) -> Result<(BTreeMap<String, Vec<Value>>, BTreeSet<String>), String> {
    let v: Value = serde_json::from_str(out).map_err(|e| format!("no JSON: {e}"))?;
    let mut by: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for d in v["diagnostics"].as_array().ok_or("no diagnostics")? {
        by.entry(d["filename"].as_str().ok_or("no name")?.into()).or_default().push(d.clone());
    }
    let errors = v["errors"].as_array().ok_or("no errors")?.iter().map(|e| e["file"].as_str().unwrap_or_default().to_string()).collect();
    Ok((by, errors))
}
/// Without any point to fail at, the shim does not work.
fn reached(c: &Check) {
    if c.states.load(std::sync::atomic::Ordering::Relaxed) == 0 {
        eprintln!("no operation was seen, so nothing was checked");
        std::process::exit(2)
    }
}

fn p10() {
    let c = Check::new("P10", "fault_enumeration");
    c.rule("all ordered pairs (thorough: triples) of eight kinds of files with four surroundings in nine modes; for each of them every single operation on a file below (opening to read or to write, reading, writing) fails with each of the errors that are possible for it, is interrupted, does one byte only, or is the last that happens; a failure is reported with the name of the file and status 255, all other files end and are reported as they are without it, a configuration that cannot be read changes nothing; interrupted and short operations make no difference; an ended run leaves whole files except for the one being written, and the next run finishes what it began");
    c.assume("operations go through open, read, write and close of the C library; walking through directories is outside");
    let place = Place::new("P10");
    let (shim, with) = (&place.shim, |f: &mut dyn FnMut(&Path)| place.with(f));
    let n = c.pick(2usize, 3);
    let lists: u64 = (KINDS.len() as u64).pow(n as u32);
    let product = mcx::Product::new(&[lists as usize, AROUND.len(), MODES.len()]);
    let scene = |i: u64, threads: &'static str| {
        let mut v = vec![];
        product.get(i, &mut v);
        let mut k = v[0];
        let mut tree: Vec<(String, String)> = vec![];
        for j in 0..n {
            let (ext, text) = KINDS[k % KINDS.len()];
            k /= KINDS.len();
            tree.push((format!("{}{}{ext}", ["", "s/", "s/t/"][j], ["a", "b", "c"][j]), text.into()));
        }
        tree.extend(AROUND[v[1]].iter().map(|(a, b)| (a.to_string(), b.to_string())));
        Scene { tree, mode: MODES[v[2]].0, json: MODES[v[2]].1, threads, std: false }
    };
    let judge = |i: u64, only: Option<&str>, threads: &'static str| {
        let s = scene(i, threads);
        with(&mut |d| {
            let fresh = |fail: Option<&str>| {
                put(d, &s.tree);
                go(d, shim, &s, fail)
            };
            let whole = fresh(None);
            let say = |fail: &str, what: String, e: &End| format!("{:?} {:?}, {fail}: {what} (status {:?})\n{}{}", s.tree, s.mode, e.status, e.out, e.err);
            if !matches!(whole.status, Some(0 | 1 | 255)) {
                c.violation("whole", say("nothing fails", "ends with another status".into(), &whole), json!({"index": i, "threads": threads, "fail": ""}));
                return;
            }
            // every operation, and which one on its file it is
            let mut seen: BTreeMap<(&str, &str), usize> = BTreeMap::new();
            let mut points = vec![];
            for (op, path) in &whole.log {
                let k = seen.entry((op, path)).or_default();
                points.push((op.as_str(), path.as_str(), *k));
                *k += 1;
            }
            points.sort();
            // the contents a file has in the course of the run
            let mut stages: BTreeMap<&str, BTreeSet<String>> = BTreeMap::new();
            for (n, t) in &s.tree {
                let e = stages.entry(n).or_default();
                e.insert(t.clone());
                e.insert(whole.files[n].clone());
            }
            for (op, path, k) in &points {
                if *op == "openw" && *k > 0 {
                    let e = fresh(Some(&format!("openw {path} {k} kill")));
                    if let Some(set) = stages.get_mut(path) {
                        set.insert(e.files[*path].clone());
                    }
                }
            }
            let reference = if s.json { findings(&whole.out).ok() } else { None };
            for (op, path, k) in &points {
                let actions: &[&str] = match *op {
                    "openr" => &["13", "2", "4", "kill", "5"],
                    "read" => &["5", "4", "short", "kill", "21"],
                    "openw" => &["28", "4", "kill", "13", "30"],
                    "write" => &["28", "4", "short", "die", "5"],
                    _ => unreachable!(),
                };
                for a in &actions[..c.pick(3 + (*op != "openw") as usize, 5)] {
                    let fail = format!("{op} {path} {k} {a}");
                    if only.is_some_and(|o| o != fail) {
                        continue;
                    }
                    let e = fresh(Some(&fail));
                    c.eval(1);
                    c.nontriv(1);
                    let bad = |sig: &str, what: String| c.violation(&format!("{sig}:{}", s.mode[0]), say(&fail, what, &e), json!({"index": i, "threads": threads, "fail": fail}));
                    let others_differ = || s.tree.iter().map(|(n, _)| n).find(|n| n.as_str() != *path && e.files[*n] != whole.files[*n]);
                    match *a {
                        // no difference
                        "4" | "short" => {
                            c.outcome("interrupted or short", 1);
                            if (e.status, &e.out, &e.err, &e.files) != (whole.status, &whole.out, &whole.err, &whole.files) {
                                bad("interrupted", format!("ends otherwise than {:?}\n{}{}{:?} {:?}", whole.status, whole.out, whole.err, whole.files, e.files));
                            }
                        }
                        "kill" | "die" => {
                            c.outcome("ended", 1);
                            if e.status != Some(77) {
                                bad("point", "the point was not reached".into());
                                continue;
                            }
                            if let Some((n, t)) = e.files.iter().find(|(n, t)| !stages[n.as_str()].contains(*t)) {
                                bad("torn", format!("{n} is left with {t:?}"));
                                continue;
                            }
                            let again = go(d, shim, &s, None);
                            if again.files != whole.files {
                                bad("resume", format!("the next run leaves {:?}", again.files));
                            }
                        }
                        _ => {
                            c.outcome(if is_code(path) { "a file fails" } else { "a configuration fails" }, 1);
                            if e.status == Some(101) || e.err.contains("panicked") {
                                bad("panic", "panics".into());
                                continue;
                            }
                            if !is_code(path) {
                                if e.status != Some(255) || e.err.trim().is_empty() {
                                    bad("configuration", "the run does not fail".into());
                                } else if s.tree.iter().any(|(n, t)| e.files[n] != *t) {
                                    bad("configuration-changed", format!("files are changed: {:?}", e.files));
                                }
                                continue;
                            }
                            // a write that fails may leave anything
                            if *op != "write" && !stages[path].contains(&e.files[*path]) {
                                bad("contents", format!("{path} is left with {:?}", e.files[*path]));
                                continue;
                            }
                            if let Some(n) = others_differ() {
                                bad("others", format!("{n} is left with {:?}", e.files[n]));
                                continue;
                            }
                            // the report with excerpts reads the files once more
                            let shown = s.mode == ["--fix"] && op.ends_with('r') | (*op == "read") && e.status == Some(1) && e.status == whole.status && e.err.contains(*path);
                            if e.status != Some(255) && !shown {
                                bad("status", "the run does not fail".into());
                                continue;
                            }
                            if let Some((found, _)) = &reference {
                                match findings(&e.out) {
                                    Err(m) => bad("report", m),
                                    Ok((by, errors)) => {
                                        if !errors.contains(*path) {
                                            bad("unnamed", "the report does not name the file".into());
                                        } else if by.contains_key(*path) {
                                            bad("both", "the file is reported as well".into());
                                        } else if let Some((n, _)) = s.tree.iter().find(|(n, _)| n.as_str() != *path && is_code(n) && by.get(n) != found.get(n)) {
                                            bad("other-findings", format!("the findings of {n} are others"));
                                        }
                                    }
                                }
                            } else if !s.mode.contains(&"--output-format=github") && !e.err.contains(*path) {
                                bad("unnamed", "nothing names the file".into());
                            }
                        }
                    }
                }
            }
            c.states.fetch_add(points.len() as u64, std::sync::atomic::Ordering::Relaxed);
        });
    };
    if let Some(r) = c.replay() {
        judge(r["index"].as_u64().unwrap(), r["fail"].as_str().filter(|s| !s.is_empty()), if r["threads"] == "4" { "4" } else { "1" });
        c.finish();
    }
    c.par(product.count() * c.pick(1, 2), |i| judge(i % product.count(), None, if i < product.count() { "1" } else { "4" }));
    reached(&c);
    c.finish()
}

fn p11() {
    let c = Check::new("P11", "fault_enumeration");
    c.rule("no file, or all ordered pairs (thorough: triples) of eight kinds of files with four surroundings in thirteen modes; for each of them every single write to the standard output or error fails with each error that is possible for it (nobody reads any more, no space left, I/O error), and so do all from then on, or it is interrupted or writes one byte only; the run never panics, all files end as they do otherwise, the status is the usual one or that of a failure, and what goes to the other stream is unharmed; interrupted and short writes make no difference");
    const MODES: &[&[&str]] = &[
        &["--output-format=json"],
        &["--output-format=full"],
        &["--output-format=concise"],
        &["--output-format=github"],
        &["--statistics"],
        &["--add-jarl-ignore=why"],
        &["--fix"],
        &["--fix", "--statistics"],
        &["--fix", "--unsafe-fixes", "--output-format=concise"],
        &["--fix-only", "--output-format=json"],
        &["--assignment=<-", "--with-timing"],
        &["--select=no_rule"],
        &["--log-level=trace", "--output-format=concise"],
    ];
    let place = Place::new("P11");
    let n = c.pick(2usize, 3);
    let lists = (KINDS.len() as u64 + 1).pow(n as u32);
    let product = mcx::Product::new(&[lists as usize, c.pick(3, AROUND.len()), MODES.len()]);
    let judge = |i: u64, only: Option<&str>| {
        let mut v = vec![];
        product.get(i, &mut v);
        let mut k = v[0];
        let mut tree: Vec<(String, String)> = vec![];
        for j in 0..n {
            let kind = k % (KINDS.len() + 1);
            k /= KINDS.len() + 1;
            if kind > 0 {
                let (ext, text) = KINDS[kind - 1];
                tree.push((format!("{}{}{ext}", ["", "s/", "s/t/"][j], ["a", "b", "c"][j]), text.into()));
            }
        }
        tree.extend(AROUND[v[1]].iter().map(|(a, b)| (a.to_string(), b.to_string())));
        let s = Scene { tree, mode: MODES[v[2]], json: false, threads: "1", std: true };
        let timing = s.mode.contains(&"--with-timing") || s.mode.contains(&"--log-level=trace");
        place.with(&mut |d| {
            let fresh = |fail: Option<&str>| {
                put(d, &s.tree);
                go(d, &place.shim, &s, fail)
            };
            let whole = fresh(None);
            let say = |fail: &str, what: String, e: &End| format!("{:?} {:?}, {fail}: {what} (status {:?} instead of {:?})\n{}{}", s.tree, s.mode, e.status, whole.status, e.out, e.err).chars().take(900).collect::<String>();
            if !matches!(whole.status, Some(0 | 1 | 255)) {
                c.violation("whole", say("nothing fails", "ends with another status".into(), &whole), json!({"index": i, "fail": ""}));
                return;
            }
            for (stream, other) in [(">1", ">2"), (">2", ">1")] {
                let writes = whole.log.iter().filter(|(op, p)| op == "write" && p == stream).count();
                c.states.fetch_add(writes as u64, std::sync::atomic::Ordering::Relaxed);
                for k in 0..writes {
                    for a in ["32", "28+", "4", "short", "32+", "5", "5+"].iter().take(c.pick(4, 7)) {
                        let fail = format!("write {stream} {k} {a}");
                        if only.is_some_and(|o| o != fail) {
                            continue;
                        }
                        let e = fresh(Some(&fail));
                        c.eval(1);
                        c.nontriv(1);
                        let bad = |sig: &str, what: String| c.violation(&format!("{sig}:{stream}:{}", s.mode[0]), say(&fail, what, &e), json!({"index": i, "fail": fail}));
                        if e.status == Some(101) || e.err.contains("panicked") || e.status.is_none() {
                            bad("panic", "panics".into());
                        } else if let Some((n, _)) = s.tree.iter().find(|(n, _)| e.files[n] != whole.files[n]) {
                            bad("files", format!("{n} is left with {:?} instead of {:?}", e.files[n], whole.files[n]));
                        } else if matches!(*a, "4" | "short") {
                            c.outcome("interrupted or short", 1);
                            if e.status != whole.status || !timing && (&e.out, &e.err) != (&whole.out, &whole.err) {
                                bad("interrupted", format!("ends otherwise than\n{}{}", whole.out, whole.err));
                            }
                        } else {
                            c.outcome("fails", 1);
                            if e.status != whole.status && e.status != Some(255) {
                                bad("status", "another status".into());
                            } else if !timing && stream == ">2" && (e.status, &e.out) != (whole.status, &whole.out) {
                                bad("other", format!("what {other} has differs from\n{}", whole.out));
                            } else if !timing && stream == ">1" && !whole.err.is_empty() && !e.err.contains(whole.err.trim_end()) && e.status == whole.status {
                                bad("other", format!("what {other} has differs from\n{}", whole.err));
                            }
                        }
                    }
                }
            }
        });
    };
    if let Some(r) = c.replay() {
        judge(r["index"].as_u64().unwrap(), r["fail"].as_str().filter(|s| !s.is_empty()));
        c.finish();
    }
    c.par(product.count(), |i| judge(i, None));
    reached(&c);
    c.finish()
}
