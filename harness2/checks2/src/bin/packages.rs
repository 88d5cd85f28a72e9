//! Rules that look at a whole R package: N01 unused functions, N02 functions
//! defined more than once, N04 what they report when files are fixed. Many packages are checked by one run of the program.
use checks2::*;
use mcx::{json, Check, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "N01" => n01(),
        "N02" => n02(),
        "N04" => n04(),
        _ => {
            eprintln!("packages N01 N02 N04");
            std::process::exit(2)
        }
    }
}
fn write(p: impl AsRef<Path>, text: impl AsRef<[u8]>) {
    std::fs::create_dir_all(p.as_ref().parent().unwrap()).unwrap();
    std::fs::write(p, text).unwrap();
}
/// Strings over several lines in which a line looks like the definition of a function.
fn strings(c: &Check, base: &Scratch, rule: &str) {
    for (k, quotes) in [("\"", "\""), ("'", "'"), ("r\"(", ")\""), ("f('", "', 1)"), ("x <- \"", "\"")].iter().enumerate() {
        for (i, def) in DEFS.iter().enumerate() {
            let s = base.sub();
            write(s.dir.join("DESCRIPTION"), "Package: p\n");
            write(s.dir.join("NAMESPACE"), "export(foo)\n");
            write(s.dir.join("R/a.R"), "foo <- function() 1\n");
            let name = if rule == "unused_function" { "bar" } else { "foo" };
            write(s.dir.join("R/b.R"), format!("{}\n{}\n{}\n", quotes.0, def.replace("NAME", name), quotes.1));
            c.eval(1);
            c.nontriv(1);
            let got = reports(&cli::run_in(&s.dir, &["check", ".", "--select", rule, "--output-format", "json"]), rule, |f| std::fs::read(s.dir.join(f)).ok());
            if got.as_ref().is_ok_and(|g| !g.is_empty()) {
                c.violation("definition-in-string", format!("{rule}: {} in a string is taken for a definition: {got:?}", def.trim()), json!({"strings": [k, i]}));
            }
        }
    }
}
type Files = BTreeMap<String, Vec<u8>>;
fn put(m: &mut Files, p: &str, t: &str) {
    m.entry(p.to_string()).or_default().extend(t.as_bytes());
}
/// What is reported: file, name (the text at the range), message.
type Reports = BTreeSet<(String, String, u64, String)>;
fn reports(r: &cli::Ran, rule: &str, text: impl Fn(&str) -> Option<Vec<u8>>) -> Result<Reports, String> {
    if !matches!(r.status, Some(0 | 1)) {
        return Err(format!("status {:?}: {}", r.status, r.err));
    }
    let v: Value = serde_json::from_str(&r.out).map_err(|e| format!("{e}: {}{}", r.out, r.err))?;
    let mut out = BTreeSet::new();
    for d in v["diagnostics"].as_array().ok_or("no diagnostics")? {
        if d["message"]["name"] != *rule {
            return Err(format!("unexpected {d}"));
        }
        let f = d["filename"].as_str().unwrap_or("").to_string();
        let (a, b) = (d["range"][0].as_u64().unwrap() as usize, d["range"][1].as_u64().unwrap() as usize);
        let t = text(&f).ok_or(format!("no file {f}"))?;
        let n = String::from_utf8_lossy(t.get(a..b).ok_or("a range outside the file")?).to_string();
        let m = format!("{}\n{}", d["message"]["body"].as_str().unwrap_or(""), d["message"]["suggestion"].as_str().unwrap_or(""));
        if !m.starts_with(&format!("`{n}` ")) {
            return Err(format!("at {n:?} in {f}: {m:?}"));
        }
        if !out.insert((f.clone(), n, a as u64, m)) {
            return Err(format!("twice: {d}"));
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- N01
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Reported,
    Quiet,
}
struct Package {
    files: Files,
    /// The functions that are judged: file, name, what is expected.
    want: Vec<(String, String, Want)>,
    what: String,
}
impl Package {
    fn new(what: String) -> Package {
        let mut files = Files::new();
        put(&mut files, "DESCRIPTION", "Package: p\nVersion: 1.0\n");
        Package { files, want: vec![], what }
    }
    fn file(mut self, p: &str, t: &str) -> Package {
        put(&mut self.files, p, t);
        self
    }
    fn want(mut self, p: &str, n: &str, w: Want) -> Package {
        self.want.push((p.into(), n.into(), w));
        self
    }
}
const NAMES: &[&str] = &["foo", "foo_bar", ".foo", "foo2", "Foo", "f", "\u{e9}t\u{e9}", "foo.bar"];
const DEFS: &[&str] = &["NAME <- function(x) x\n", "NAME = function(x, y = 1) {\n  x\n}\n", "NAME <- \\(x) x", "NAME<-function() 1\r\n", "# é\nNAME   <-   function (x) {\n  x\n}\n"];
/// Ways to use a function in R code.
const USES: &[&str] = &[
    "NAME()", "NAME(1)\n", "y <- NAME\n", "lapply(y, NAME)\n", "do.call('NAME', list())\n", "match.fun(\"NAME\")\n", "`NAME`(1)\n", "y |> NAME()\n", "pkg:::NAME(1)\n", "pkg::NAME\n",
    "y <- function(z = NAME()) z\n", "y(NAME = NAME)\n", "{\n  y <- NAME(1)\n}\n", "if (a) NAME() else 1\n", "'\u{e9}'; NAME()\n", "#' \\Sexpr{NAME()}\nNULL\n", "map(y, ~ NAME(.x))\n", "y %>% NAME\n", "-NAME(1)\n",
    "NAME(\n1)\n", "setMethod('y', 'z', NAME)\n", "c(a=NAME)\n", "1:NAME()\n", "NAME()$a\n", "y[NAME]\n", "glue('{NAME(y)}')\n", "\tNAME()\n", "y<-NAME()\n", "y;NAME()\n", "y\r\nNAME()\r\n", "y # no\nNAME() # no\n",
    "y <- c(\n  # no\n  NAME,\n  2\n)\n", "y <- \"a\nNAME\n\"\n", "  `NAME`\n", "(NAME)(1)\n", "NAME -> y\n", "y == NAME()\n", "!NAME()\n", "y+NAME()*2\n", "y@NAME\n", "NAME |> y()\n", "function() NAME\n", "\\(x) NAME(x)\n",
];
const C_USES: &[&str] = &["eval(\"NAME\");", "  NAME(1);\n", "#define X NAME\n", "install(\"NAME\"); // no\n"];
const R_PLACES: &[&str] = &["R/a.R", "R/b.R", "R/z.r", "R/unix/c.R", "R/RcppExports.R", "R/zzz.R", "tests/testthat.R", "tests/testthat/test-a.R", "tests/testthat/sub/helper.r", "tests/a/b/c.R", "inst/tinytest/test_a.R", "inst/tests/a.R"];
const C_PLACES: &[&str] = &["src/a.c", "src/sub/a.cpp", "src/a.h", "src/a.cc", "src/a.hpp", "src/a.cxx", "src/a.hh", "src/a.hxx"];
/// What a NAMESPACE says so that the function is exported.
const EXPORTS: &[&str] = &[
    "export(NAME)\n", "export(NAME)", "export(\"NAME\")\n", "export('NAME')\n", "export(`NAME`)\n", "export(other,NAME)\n", "export(\n  other,\n  NAME\n)\n", "export( NAME , other )\n", "exportPattern(\".\")\n", "exportPattern(\"NAME\")\n",
    "exportPattern('^NAME$')\n", "# no\nexport(NAME) # no\n", "if (getRversion() >= \"4.0\") export(NAME)\n", "if (a) {\n  export(other)\n} else {\n  export(NAME)\n}\n", "export(c(other, NAME))\n", "export(\"other\", \"NAME\")\r\n", "exportMethods(NAME)\n",
    "S3method(print, NAME, NAME)\n", "S3method(\"print\", \"other\", \"NAME\")\n", "export(other); export(NAME)\n", "useDynLib(p, .registration = TRUE)\nimport(stats)\nexport(NAME)\n", "exportPattern(\"^nothing\", \".\")\n", "exportClasses(other)\nexport(NAME)\n",
];
/// What a NAMESPACE says so that it is not.
const NO_EXPORTS: &[&str] = &["", "export(other)\n", "# export(NAME)\n", "export(xNAME)\n", "export(NAMEx)\n", "exportPattern(\"^nothing$\")\n", "S3method(print, other)\n", "import(NAME)\n", "importFrom(stats, sd)\nexport(other)\n"];
/// Code that does not use it.
const NO_USES: &[&str] = &["", "xNAME()\n", "NAMEx()\n", "NAME_2()\n", "NAME.b()\n", "a.NAME\n", "'xNAME'\n"];

fn packages(thorough: bool) -> Vec<Package> {
    use Want::*;
    let s = |t: &str, n: &str| t.replace("NAME", n);
    let mut v = vec![];
    let pick = |i: usize, k: usize| thorough || i % k == 0;
    let mut i = 0;
    // Used somewhere
    for n in NAMES {
        for (k, d) in DEFS.iter().enumerate() {
            for (places, uses) in [(R_PLACES, USES), (C_PLACES, C_USES)] {
                for p in places {
                    for u in uses {
                        i += 1;
                        // Every pair of use and place, with every name and definition in turn
                        if !thorough && (i / uses.len() + k) % DEFS.len() != 0 && !(k == 0 && *n == "foo") {
                            continue;
                        }
                        let text = if *p == "R/a.R" { format!("\n{}", s(u, n)) } else { s(u, n) };
                        v.push(Package::new(format!("{:?} used by {:?} in {p}", s(d, n), s(u, n))).file("NAMESPACE", "export(other)\n").file("R/a.R", &s(d, n)).file(p, &text).want("R/a.R", n, Quiet));
                    }
                }
            }
            // A use before the definition, in the same file
            for u in USES {
                v.push(Package::new(format!("{:?} after its use {:?}", s(d, n), s(u, n))).file("NAMESPACE", "").file("R/a.R", &format!("{}\n", s(u, n))).file("R/a.R", &s(d, n)).want("R/a.R", n, Quiet));
            }
            for e in EXPORTS {
                i += 1;
                if pick(i, 2) {
                    v.push(Package::new(format!("{:?} with {:?}", s(d, n), s(e, n))).file("NAMESPACE", &s(e, &if e.contains("attern") { n.replace('.', "\\\\.") } else { n.to_string() })).file("R/a.R", &s(d, n)).file("R/b.R", "other <- function() 1\n").want("R/a.R", n, Quiet));
                }
            }
            // No NAMESPACE: nothing is known about exports
            v.push(Package::new(format!("{:?} without a NAMESPACE", s(d, n))).file("R/a.R", &s(d, n)).want("R/a.R", n, Quiet));
            // Not used
            if !n.contains("o.b") {
                for e in NO_EXPORTS {
                    for u in NO_USES {
                        for p in ["R/b.R", "tests/testthat/test-a.R", "inst/tinytest/a.R", "src/a.c"] {
                            i += 1;
                            if pick(i, 7) {
                                v.push(Package::new(format!("{:?} with {:?} and {:?} in {p}", s(d, n), s(e, n), s(u, n))).file("NAMESPACE", &s(e, n)).file("R/a.R", &s(d, n)).file(p, &s(u, n)).want("R/a.R", n, Reported));
                            }
                        }
                    }
                }
            }
            // Defined in tests
            for (def, scope) in [("tests/testthat/helper.R", "tests"), ("tests/testthat/test-b.R", "tests"), ("tests/helper.R", "tests"), ("inst/tinytest/helper.R", "tinytest"), ("inst/tests/b/helper.R", "tests of inst")] {
                let inside: &[&str] = match scope {
                    "tests" => &["tests/testthat/test-a.R", "tests/testthat.R", "tests/testthat/sub/a.r"],
                    "tinytest" => &["inst/tinytest/test_a.R", "inst/tinytest/sub/a.R"],
                    _ => &["inst/tests/a.R"],
                };
                for p in inside.iter().copied().chain([def]) {
                    for (j, u) in USES.iter().enumerate() {
                        i += 1;
                        if pick(i + j + k, 5) {
                            let text = if p == def { format!("\n{}", s(u, n)) } else { s(u, n) };
                            v.push(Package::new(format!("{:?} in {def} used by {:?} in {p}", s(d, n), s(u, n))).file("NAMESPACE", "").file("R/a.R", "1\n").file(def, &s(d, n)).file(p, &text).want(def, n, Quiet));
                        }
                    }
                }
                if !n.contains("o.b") {
                    for u in NO_USES {
                        v.push(Package::new(format!("{:?} in {def} with {:?}", s(d, n), s(u, n))).file("NAMESPACE", "").file("R/a.R", "1\n").file(def, &s(d, n)).file(inside[0], &s(u, n)).want(def, n, Reported));
                    }
                }
            }
        }
    }
    // Methods of S3 generics
    for (name, generic, class) in [("print.cls", "print", "cls"), ("sort_by.data.table", "sort_by", "data.table"), ("as.list.cls", "as.list", "cls"), ("format.a_b", "format", "a_b"), ("[.cls", "[", "cls")] {
        for e in ["S3method(G, C)\n", "S3method(\"G\", \"C\")\n", "S3method(\"G\",C)", "S3method(base::G, C)\n", "if (getRversion() >= \"4.4.0\") S3method(G, C)\n", "S3method(G,\n  C)\n", "S3method(`G`, `C`)\n"] {
            if name.starts_with('[') {
                continue;
            }
            let e = e.replace('G', generic).replace('C', class).replace("getRversion", "getRversion");
            v.push(Package::new(format!("{name} with {e:?}")).file("NAMESPACE", &e).file("R/a.R", &format!("{name} <- function(x, ...) x\n")).want("R/a.R", name, Quiet));
        }
        let uses = [format!("{generic}(y)\n"), format!("y |> {generic}()\n"), format!("lapply(y, {generic})\n"), format!("x <- 1; base::{generic}(y)\n")];
        if name.starts_with('[') {
            continue;
        }
        for u in &uses {
            // Dispatched to from the code of the package and of its tests
            for p in ["R/a.R", "R/b.R", "R/unix/b.R", "tests/testthat/test-a.R", "tests/testthat/helper.R", "inst/tinytest/a.R", "inst/tests/a.R"] {
                v.push(Package::new(format!("method {name} used by {u:?} in {p}")).file("NAMESPACE", "").file("R/a.R", &format!("{name} <- function(x, ...) x\n")).file(p, u).want("R/a.R", name, Quiet));
            }
            for (d, p) in [("tests/testthat/helper.R", "tests/testthat/test-a.R"), ("tests/testthat/test-a.R", "tests/testthat/test-a.R"), ("inst/tinytest/a.R", "inst/tinytest/b.R"), ("inst/tests/a.R", "inst/tests/a.R")] {
                v.push(Package::new(format!("method {name} in {d} used by {u:?} in {p}")).file("NAMESPACE", "").file("R/a.R", "1\n").file(d, &format!("{name} <- function(x, ...) x\n")).file(p, u).want(d, name, Quiet));
            }
        }
    }
    // Functions that R itself calls
    for h in [".onLoad", ".onAttach", ".onDetach", ".onUnload", ".Last.lib", ".First.lib"] {
        v.push(Package::new(format!("hook {h}")).file("NAMESPACE", "").file("R/zzz.R", &format!("{h} <- function(a, b) 1\n")).want("R/zzz.R", h, Quiet));
    }
    // Files that cannot be parsed or are not UTF-8
    for (what, text) in [("broken", &b"foo()\ny <- (\n"[..]), ("latin1", &b"foo('\xe9')\n"[..]), ("bom", &b"\xef\xbb\xbffoo()\n"[..])] {
        for p in ["R/unix/b.R", "tests/testthat/a.R", "inst/tinytest/a.R", "src/a.c"] {
            let mut x = Package::new(format!("used in the {what} file {p}")).file("NAMESPACE", "").file("R/a.R", "foo <- function() 1\n").want("R/a.R", "foo", Quiet);
            x.files.insert(p.into(), text.to_vec());
            v.push(x);
        }
    }
    // A package for tests inside the tests of another one
    for inner in ["tests/testthat/pkg", "tests/pkg", "inst/tests/pkg", "inst/tinytest/a/pkg", "inst/other/pkg", "pkg"] {
        let f = |p: &str| format!("{inner}/{p}");
        let base = |w: &str| Package::new(format!("{w} in a package in {inner}")).file("NAMESPACE", "").file("R/o.R", "outer1 <- function() 1\n").file(&f("DESCRIPTION"), "Package: q\n");
        v.push(base("exported").file(&f("NAMESPACE"), "export(foo)\n").file(&f("R/a.R"), "foo <- function() 1\n").want(&f("R/a.R"), "foo", Quiet).want("R/o.R", "outer1", Reported));
        v.push(base("used").file(&f("NAMESPACE"), "").file(&f("R/a.R"), "foo <- function() 1\n").file(&f("R/b.R"), "foo()\n").want(&f("R/a.R"), "foo", Quiet));
        v.push(base("used in its tests").file(&f("NAMESPACE"), "").file(&f("R/a.R"), "foo <- function() 1\n").file(&f("tests/b.R"), "foo()\n").want(&f("R/a.R"), "foo", Quiet));
        v.push(base("used in its C code").file(&f("NAMESPACE"), "").file(&f("R/a.R"), "foo <- function() 1\n").file(&f("src/b.c"), "foo()\n").want(&f("R/a.R"), "foo", Quiet));
        v.push(base("method").file(&f("NAMESPACE"), "S3method(print, c)\n").file(&f("R/a.R"), "print.c <- function(x) 1\n").want(&f("R/a.R"), "print.c", Quiet));
        v.push(base("hook").file(&f("NAMESPACE"), "").file(&f("R/zzz.R"), ".onLoad <- function(a, b) 1\n").want(&f("R/zzz.R"), ".onLoad", Quiet));
        v.push(base("without NAMESPACE").file(&f("R/a.R"), "foo <- function() 1\n").want(&f("R/a.R"), "foo", Quiet));
        v.push(base("defined in its tests and used").file(&f("NAMESPACE"), "").file(&f("R/a.R"), "1\n").file(&f("tests/a.R"), "foo <- function() 1\n").file(&f("tests/b.R"), "foo()\n").want(&f("tests/a.R"), "foo", Quiet));
        v.push(base("unused").file(&f("NAMESPACE"), "").file(&f("R/a.R"), "foo <- function() 1\n").want(&f("R/a.R"), "foo", Reported));
        if inner.contains("test") {
            v.push(base("the outer's function").file(&f("NAMESPACE"), "").file(&f("R/a.R"), "p:::outer1()\n").want("R/o.R", "outer1", Quiet));
            v.push(base("the outer tests' function").file(&f("NAMESPACE"), "").file(&f("R/a.R"), "foo()\n").file(&format!("{}/h.R", inner.rsplit_once('/').unwrap().0), "foo <- function() 1\n").want(&format!("{}/h.R", inner.rsplit_once('/').unwrap().0), "foo", Quiet));
        }
    }
    v
}
/// Places of a package below the working directory.
const AT: &[&str] = &["pN", "src/pN", "tests/pN", "inst/tests/pN", "inst/tinytest/pN", "R/pN", "a b/\u{e9}/pN"];

fn n01() {
    let c = Check::new("N01", "model_checking");
    c.rule("for every name, kind of definition, way to use a function and place of the use in a package (R/ and below, excluded files, tests/, inst/tests/, inst/tinytest/, src/), every way to export it in NAMESPACE, S3 methods, hooks, packages inside packages, wherever the package lies and however it is named to the program: a function that is used or exported is never reported as unused, and one that is neither used nor exported is, at its name, unless it matches skipped-functions or there are more than threshold-ignore of them and the rule is not selected by name");
    c.assume("names that are only mentioned in comments, functions whose name contains a dot, and uses outside the directories that the documentation lists are not judged");
    let base = Scratch::new("N01");
    base.enter();
    let all = packages(c.thorough());
    let ats: &[&str] = if c.thorough() { AT } else { &AT[..4] };
    c.extra("packages", json!(all.len()));
    let judge = |x: &Package, prefix: &str, got: &Reports| -> Result<(u64, u64), String> {
        let mut n = (0, 0);
        for (f, name, want) in &x.want {
            let f = format!("{prefix}{f}");
            let here: Vec<_> = got.iter().filter(|r| r.0 == f && r.1 == *name).collect();
            match (want, here.len()) {
                (Want::Reported, 1) => n.0 += 1,
                (Want::Quiet, 0) => n.1 += 1,
                (Want::Reported, k) => return Err(format!("{name} in {f} is not used and is reported {k} times")),
                (Want::Quiet, _) => return Err(format!("{name} in {f} is used or exported: {:?}", here[0].3)),
            }
        }
        Ok(n)
    };
    let single = |x: &Package| -> Result<Reports, String> {
        let s = base.sub();
        for (p, t) in &x.files {
            write(s.dir.join(p), t);
        }
        let r = cli::run_in(&s.dir, &["check", ".", "--select", "unused_function", "--output-format", "json"]);
        // Broken files make the run fail, as they should
        let r = cli::Ran { status: r.status.map(|x| if x == 255 { 1 } else { x }), ..r };
        reports(&r, "unused_function", |f| x.files.get(f).cloned())
    };
    if let Some(v) = c.replay() {
        let i = v["package"].as_u64().unwrap_or(0) as usize;
        println!("{}", all[i].what);
        if let Err(e) = single(&all[i]).and_then(|g| judge(&all[i], "", &g)) {
            c.violation("replay", e, v.clone());
        }
        c.finish();
    }
    // Trees of packages, checked at once
    const BATCH: usize = 400;
    let batches = all.len().div_ceil(BATCH);
    c.par_named(
        (batches * ats.len()) as u64,
        "batch",
        |k| {
            let (b, at) = (k as usize / ats.len(), ats[k as usize % ats.len()]);
            let range = b * BATCH..((b + 1) * BATCH).min(all.len());
            let s = base.sub();
            let place = |i: usize| at.replace('N', &i.to_string());
            for i in range.clone() {
                for (p, t) in &all[i].files {
                    write(s.dir.join(place(i)).join(p), t);
                }
            }
            let r = cli::run_in(&s.dir, &["check", ".", "--select", "unused_function", "--output-format", "json"]);
            let r = cli::Ran { status: r.status.map(|x| if x == 255 { 1 } else { x }), ..r };
            c.eval(range.len() as u64);
            match reports(&r, "unused_function", |f| std::fs::read(s.dir.join(f)).ok()) {
                Err(e) => c.violation("batch", format!("packages {range:?} in {at}: {e}"), json!({"batch": b, "at": at})),
                Ok(got) => {
                    // by package
                    let mut of: BTreeMap<String, Reports> = BTreeMap::new();
                    let top = at.matches('/').count() + 1;
                    for r in got {
                        let key = r.0.split('/').take(top).collect::<Vec<_>>().join("/");
                        of.entry(key).or_default().insert(r);
                    }
                    let none = Reports::new();
                    for i in range {
                        let key = place(i);
                        match judge(&all[i], &format!("{key}/"), of.get(&key).unwrap_or(&none)) {
                            Ok((a, b)) => {
                                c.nontriv(a + b);
                                c.outcome("unused and reported", a);
                                c.outcome("used or exported and not reported", b);
                            }
                            Err(e) => c.violation(&format!("{} {}", at, e.split(" in ").nth(1).unwrap_or(&e).split('/').nth(at.matches('/').count() + 1).unwrap_or("")), format!("{}: {e}", all[i].what), json!({"package": i, "what": all[i].what})),
                        }
                    }
                }
            }
        },
        |k| json!({"batch": k}),
    );
    // However the package is named to the program
    let some: Vec<usize> = (0..all.len()).step_by(all.len() / c.pick(120, 1200)).collect();
    c.par_named(
        some.len() as u64,
        "package",
        |k| {
            let i = some[k as usize];
            let x = &all[i];
            let s = base.sub();
            for (p, t) in &x.files {
                write(s.dir.join("p").join(p), t);
            }
            write(s.dir.join("o/x.R"), "1\n");
            let root = s.dir.join("p");
            let abs = root.display().to_string();
            let (mut ra, mut aa) = (vec![], vec![]);
            for f in x.files.keys().filter(|f| f.ends_with(".R") || f.ends_with(".r")) {
                ra.push(f.clone());
                aa.push(format!("{abs}/{f}"));
            }
            let own = |v: &[String]| v.iter().map(|x| x.clone()).collect::<Vec<_>>();
            let r_dirs: Vec<String> = ["R", "tests", "inst"].iter().filter(|d| root.join(d).is_dir()).map(|d| d.to_string()).collect();
            // Working directory, paths, what the paths in the report start with, only files in R/ are given
            let ways: Vec<(std::path::PathBuf, Vec<String>, bool)> = vec![
                (root.clone(), vec![".".into()], false),
                (root.clone(), r_dirs, false),
                (root.clone(), own(&ra), false),
                (root.clone(), ra.iter().rev().map(|x| format!("./{x}")).collect(), false),
                (root.clone(), vec![abs.clone()], false),
                (root.clone(), own(&aa), false),
                (root.clone(), vec!["R".into()], true),
                (root.clone(), vec!["R/a.R".into()], true),
                (s.dir.clone(), vec!["p".into()], false),
                (s.dir.clone(), vec!["p/R".into()], true),
                (s.dir.clone(), vec!["./p/R/../R".into()], true),
                (s.dir.join("o"), vec!["../p".into()], false),
                (s.dir.join("o"), vec!["../p/R".into()], true),
                (root.join("R"), vec![".".into()], true),
                (root.join("R"), vec!["..".into()], false),
                (root.join("R"), vec!["a.R".into()], true),
            ];
            for (n, (cwd, paths, only_r)) in ways.iter().enumerate() {
                if !cwd.is_dir() || (paths[0].contains("a.R") && !root.join("R/a.R").is_file()) {
                    continue;
                }
                let mut a = vec!["check"];
                a.extend(paths.iter().map(|p| &p[..]));
                a.extend(["--select", "unused_function", "--output-format", "json", "--no-default-exclude"]);
                c.eval(1);
                let r = cli::run_home(cwd, &s.dir, &a);
                let r = cli::Ran { status: r.status.map(|x| if x == 255 { 1 } else { x }), ..r };
                let judge = || -> Result<(), String> {
                    let got = reports(&r, "unused_function", |f| std::fs::read(cwd.join(f)).ok())?;
                    for (f, name, want) in &x.want {
                        if *only_r && (!f.starts_with("R/") || (paths[0].ends_with("a.R") && f != "R/a.R")) {
                            continue;
                        }
                        let real = root.join(f).canonicalize().unwrap();
                        let k = got.iter().filter(|r| cwd.join(&r.0).canonicalize().ok().as_ref() == Some(&real) && r.1 == *name).count();
                        if k != usize::from(*want == Want::Reported) {
                            return Err(format!("{name} in {f} is reported {k} times and should be {want:?}"));
                        }
                        c.nontriv(1);
                    }
                    Ok(())
                };
                if let Err(e) = judge() {
                    c.violation(&format!("way {n}"), format!("{}: with {paths:?} in {cwd:?}: {e}", x.what), json!({"package": i, "what": x.what, "paths": paths}));
                }
            }
        },
        |k| json!({"package": some[k as usize]}),
    );
    // How many there are, and how the rule is selected
    let counts = [0usize, 1, 2, 3, 49, 50, 51, 52];
    let thresholds: [Option<usize>; 7] = [None, Some(0), Some(1), Some(2), Some(50), Some(51), Some(10_000)];
    let selects: [(&str, &[&str], bool); 9] = [
        ("", &[], false),
        ("select = [\"unused_function\"]\n", &[], true),
        ("extend-select = [\"unused_function\"]\n", &[], true),
        ("select = [\"CORR\"]\n", &[], false),
        ("extend-select = [\"ALL\"]\n", &[], false),
        ("", &["--select", "unused_function"], true),
        ("", &["--extend-select", "any_is_na,unused_function"], true),
        ("", &["--select", "ALL"], false),
        ("", &["--extend-select", "CORR"], false),
    ];
    let total = counts.len() * thresholds.len() * selects.len();
    c.par_named(
        total as u64,
        "threshold",
        |k| {
            let k = k as usize;
            let (n, t, (toml, args, explicit)) = (counts[k % 8], thresholds[k / 8 % 7], selects[k / 56]);
            let s = base.sub();
            write(s.dir.join("DESCRIPTION"), "Package: p\n");
            write(s.dir.join("NAMESPACE"), "");
            for i in 0..n {
                write(s.dir.join(format!("R/f{i}.R")), format!("fun{i} <- function() 1\n"));
            }
            write(s.dir.join("R/used.R"), "1\n");
            let opt = t.map_or(String::new(), |t| format!("[lint.unused_function]\nthreshold-ignore = {t}\n"));
            write(s.dir.join("jarl.toml"), format!("[lint]\n{toml}{opt}"));
            let mut a = vec!["check", ".", "--output-format", "json"];
            a.extend(args);
            c.eval(1);
            c.nontriv(1);
            let selected = !(toml.is_empty() && args.is_empty());
            let want = if selected && (explicit || n <= t.unwrap_or(50)) { n } else { 0 };
            let got = reports(&cli::run_in(&s.dir, &a), "unused_function", |f| std::fs::read(s.dir.join(f)).ok()).map(|r| r.len());
            match got {
                Ok(g) if g == want => c.outcome(if want == n { "below the threshold: all reported" } else { "above the threshold: none reported" }, 1),
                g => c.violation("threshold", format!("{n} unused functions, {opt:?}, {toml:?} {args:?}: {g:?} reported and not {want}"), json!({"count": n, "threshold": t, "toml": toml, "args": args})),
            }
        },
        |k| json!({"threshold": k}),
    );
    // Names that are allowed to be unused
    let skips: [(&str, fn(&str) -> bool); 8] = [("[]", |_| false), ("['^pl_']", |n| n.starts_with("pl_")), ("['_x$', '^a']", |n| n.ends_with("_x") || n.starts_with('a')), ("['pl_']", |n| n.contains("pl_")), ("['.']", |_| true), ("['^b\\.c$']", |n| n == "b.c"), ("['^(a|z)$']", |n| n == "a" || n == "z"), ("['B']", |n| n.contains('B'))];
    let names = ["pl_a", "a_pl_b", "b_x", "abc", "a", "z", "bxc", "aB"];
    for (k, (list, skip)) in skips.iter().enumerate() {
        let s = base.sub();
        write(s.dir.join("DESCRIPTION"), "Package: p\n");
        write(s.dir.join("NAMESPACE"), "");
        write(s.dir.join("R/a.R"), names.iter().map(|n| format!("{n} <- function() 1\n")).collect::<String>());
        write(s.dir.join("tests/a.R"), names.iter().map(|n| format!("{n}.t <- function() 1\n")).collect::<String>());
        write(s.dir.join("jarl.toml"), format!("[lint]\nselect = ['unused_function']\n[lint.unused_function]\nskipped-functions = {list}\n"));
        c.eval(1);
        c.nontriv(1);
        let got = reports(&cli::run_in(&s.dir, &["check", ".", "--output-format", "json"]), "unused_function", |f| std::fs::read(s.dir.join(f)).ok());
        let got: Result<BTreeSet<String>, String> = got.map(|g| g.into_iter().filter(|r| r.0 == "R/a.R").map(|r| r.1).collect());
        let want: BTreeSet<String> = names.iter().filter(|n| !skip(n)).map(|n| n.to_string()).collect();
        if got.as_ref() != Ok(&want) {
            c.violation("skipped", format!("with skipped-functions = {list} {got:?} are reported and not {want:?}"), json!({"skipped": k}));
        }
    }
    // Text that looks like a definition
    strings(&c, &base, "unused_function");
    c.finish()
}

// ---------------------------------------------------------------- N02
fn n02() {
    let c = Check::new("N02", "model_checking");
    c.rule("for all ways to place up to six definitions of two functions, in different forms, into two files in R/, one below R/, one in tests/ and one outside: each function that is defined k times in the files directly in R/ is reported k-1 times, at the name of a definition, with the place of another one; nothing else is reported; and whichever of the files are given, from wherever, the reports for a given file are the same");
    c.assume("definitions that are indented or span lines before `function` are not judged (documented limits)");
    let base = Scratch::new("N02");
    base.enter();
    const FORMS: &[&str] = &["NAME <- function(x) x\n", "NAME = function() {\n  1\n}\n", "NAME <- \\(x) x\n", "# \u{e9}\nNAME<-function (x) x\r\n"];
    // Lines that define nothing at the top level
    const OTHER: &[&str] = &["", "f()\n", "f <- 1\n", "# f <- function() 1\n", "local({\n  f <- function() 1\n})\n", "f == function() 1\n", "f(g = function() 1)\n", "f <- functional(1)\n", "f$g <- function() 1\n", "f[1] <- function() 1\n", "f.a <- function() 1\n", "ff <- function() 1\n", "h <- f <- 1\n", "g2 = \\(x) x\n"];
    const FILES: &[&str] = &["R/a.R", "R/b.R", "R/sub/c.R", "tests/d.R", "e.R"];
    // Slots: two in each of the first two files, one in each of the others
    const SLOTS: &[usize] = &[0, 0, 1, 1, 2, 3, 4];
    let dims: Vec<u64> = vec![3; SLOTS.len()];
    let n: u64 = dims.iter().product();
    let per = (FORMS.len() * OTHER.len()) as u64;
    let step = c.pick(5, 1);
    let cases: Vec<u64> = (0..n * per).filter(|i| (i / n + i) % step == 0).collect();
    struct Case {
        files: Files,
        what: String,
    }
    let make = |i: u64| -> Case {
        let (mut k, form, other) = (i % n, (i / n % FORMS.len() as u64) as usize, (i / n / FORMS.len() as u64) as usize);
        let mut files = Files::new();
        put(&mut files, "DESCRIPTION", "Package: p\n");
        for f in FILES {
            put(&mut files, f, "");
        }
        put(&mut files, "R/b.R", OTHER[other]);
        for (j, s) in SLOTS.iter().enumerate() {
            let name = [None, Some("f"), Some("g")][(k % 3) as usize];
            k /= 3;
            if let Some(x) = name {
                put(&mut files, FILES[*s], &FORMS[(form + j) % FORMS.len()].replace("NAME", x));
            }
        }
        put(&mut files, "R/a.R", OTHER[(other + 3) % OTHER.len()]);
        let what = files.iter().filter(|f| f.0 != "DESCRIPTION").map(|(p, t)| format!("{p} {:?}", String::from_utf8_lossy(t))).collect::<Vec<_>>().join(" ");
        Case { files, what }
    };
    // The definitions directly in R/: file, name, offset
    fn defs(x: &Case) -> Vec<(String, String, u64, String)> {
        let mut v = vec![];
        for f in ["R/a.R", "R/b.R"] {
            let t = String::from_utf8_lossy(&x.files[f]).to_string();
            let mut at = 0;
            for (n, l) in t.split_inclusive('\n').enumerate() {
                for name in ["f", "g"] {
                    if FORMS.iter().any(|d| l.trim_end() == d.replace("NAME", name).lines().find(|l| !l.starts_with('#')).unwrap().trim_end()) {
                        v.push((f.to_string(), name.to_string(), at, format!("{f}:{}:1", n + 1)));
                    }
                }
                at += l.len() as u64;
            }
        }
        v
    }
    let judge = |x: &Case, prefix: &str, got: &Reports| -> Result<u64, String> {
        let d = defs(x);
        for name in ["f", "g"] {
            let of: Vec<_> = d.iter().filter(|d| d.1 == name).collect();
            let here: Vec<_> = got.iter().filter(|r| r.1 == name).collect();
            if here.len() != of.len().saturating_sub(1) {
                return Err(format!("{name} is defined {} times and reported {} times", of.len(), here.len()));
            }
            for r in here {
                if !of.iter().any(|d| r.0 == format!("{prefix}{}", d.0) && r.2 == d.2) {
                    return Err(format!("{name} is not defined at {}:{}", r.0, r.2));
                }
                let other = of.iter().any(|d| r.3.contains(&format!("{prefix}{}", d.3)) && !(r.0 == format!("{prefix}{}", d.0) && r.2 == d.2));
                if !other {
                    return Err(format!("the report at {}:{} does not name another definition: {:?}", r.0, r.2, r.3));
                }
            }
        }
        if let Some(r) = got.iter().find(|r| r.1 != "f" && r.1 != "g") {
            return Err(format!("{} is reported in {}", r.1, r.0));
        }
        Ok(got.len() as u64)
    };
    let flags = ["--select", "duplicated_function_definition", "--output-format", "json"];
    if let Some(v) = c.replay() {
        let x = make(v["case"].as_u64().unwrap_or(0));
        let s = base.sub();
        for (p, t) in &x.files {
            write(s.dir.join(p), t);
        }
        println!("{}", x.what);
        let mut a = vec!["check", "."];
        a.extend(flags);
        if let Err(e) = reports(&cli::run_in(&s.dir, &a), "duplicated_function_definition", |f| x.files.get(f).cloned()).and_then(|g| judge(&x, "", &g)) {
            c.violation("replay", e, v.clone());
        }
        c.finish();
    }
    const BATCH: usize = 500;
    c.par_named(
        cases.len().div_ceil(BATCH) as u64,
        "batch",
        |b| {
            let part = &cases[b as usize * BATCH..((b as usize + 1) * BATCH).min(cases.len())];
            let s = base.sub();
            let all: Vec<Case> = part.iter().map(|i| make(*i)).collect();
            for (k, x) in all.iter().enumerate() {
                for (p, t) in &x.files {
                    write(s.dir.join(format!("p{k}")).join(p), t);
                }
            }
            c.eval(all.len() as u64);
            let mut a = vec!["check", "."];
            a.extend(flags);
            let r = cli::run_in(&s.dir, &a);
            match reports(&r, "duplicated_function_definition", |f| std::fs::read(s.dir.join(f)).ok()) {
                Err(e) => c.violation("batch", e, json!({"batch": b})),
                Ok(got) => {
                    let mut of: BTreeMap<&str, Reports> = BTreeMap::new();
                    for r in &got {
                        of.entry(r.0.split('/').next().unwrap()).or_default().insert(r.clone());
                    }
                    let none = Reports::new();
                    for (k, x) in all.iter().enumerate() {
                        let key = format!("p{k}");
                        match judge(x, &format!("{key}/"), of.get(&key[..]).unwrap_or(&none)) {
                            Ok(n) => {
                                c.nontriv(1);
                                c.outcome(&format!("{n} reports"), 1);
                            }
                            Err(e) => c.violation("definitions", format!("{}: {e}", x.what), json!({"case": part[k]})),
                        }
                    }
                }
            }
        },
        |b| json!({"batch": b}),
    );
    // Whichever files are given
    let some: Vec<u64> = cases.iter().copied().step_by(cases.len() / c.pick(150, 1500)).collect();
    c.par_named(
        some.len() as u64,
        "case",
        |k| {
            let x = make(some[k as usize]);
            let s = base.sub();
            for (p, t) in &x.files {
                write(s.dir.join("p").join(p), t);
            }
            write(s.dir.join("o/x.R"), "1\n");
            let root = s.dir.join("p");
            let go = |cwd: &Path, paths: &[&str]| -> Result<Reports, String> {
                let mut a = vec!["check"];
                a.extend(paths);
                a.extend(flags);
                c.eval(1);
                let r = reports(&cli::run_home(cwd, &s.dir, &a), "duplicated_function_definition", |f| std::fs::read(cwd.join(f)).ok())?;
                // By the real path, without the message (paths in it are relative)
                Ok(r.into_iter().map(|(f, n, at, _)| (cwd.join(&f).canonicalize().unwrap().strip_prefix(root.canonicalize().unwrap()).unwrap().display().to_string(), n, at, String::new())).collect())
            };
            let judge = || -> Result<(), String> {
                let all = go(&root, &["."])?;
                let abs = root.join("R").display().to_string();
                let ways: Vec<(std::path::PathBuf, Vec<&str>, &str)> = vec![
                    (root.clone(), vec!["R"], ""),
                    (root.clone(), vec!["R/a.R"], "R/a.R"),
                    (root.clone(), vec!["R/b.R"], "R/b.R"),
                    (root.clone(), vec!["R/b.R", "./R/a.R"], ""),
                    (root.clone(), vec!["tests"], "tests"),
                    (root.clone(), vec![&abs], ""),
                    (s.dir.clone(), vec!["p/R/b.R", "o"], "R/b.R"),
                    (s.dir.join("o"), vec!["../p"], ""),
                    (root.join("R"), vec!["b.R"], "R/b.R"),
                    (root.join("R"), vec!["."], ""),
                ];
                for (cwd, paths, only) in &ways {
                    let got = go(cwd, paths)?;
                    let want: Reports = all.iter().filter(|r| only.is_empty() || r.0 == *only).map(|r| (r.0.clone(), r.1.clone(), r.2, String::new())).collect();
                    c.nontriv(1);
                    if got != want {
                        return Err(format!("with {paths:?} in {:?}: {got:?} and not {want:?}", cwd.file_name()));
                    }
                }
                Ok(())
            };
            if let Err(e) = judge() {
                c.violation("ways", format!("{}: {e}", x.what), json!({"case": some[k as usize]}));
            }
        },
        |k| json!({"case": some[k as usize]}),
    );
    strings(&c, &base, "duplicated_function_definition");
    c.finish()
}

// ---------------------------------------------------------------- N04
fn n04() {
    let c = Check::new("N04", "exploration");
    c.rule("for all packages with up to three of ten parts in one file and up to two in another, parts with and without violations that fixes make shorter, join to fewer lines or remove, definitions and suppression comments: what `jarl check --fix` reports is what `jarl check` reports about the files afterwards");
    let base = Scratch::new("N04");
    base.enter();
    const PARTS: &[&str] = &[
        "x1 <- any(is.na(y))\n",
        "x2 <- any(\n  is.na(\n    y\n  )\n)\n",
        "f <- function(x) any(is.na(x))\n",
        "g = function() 1\n",
        "f <- function(x) {\n  if (any(duplicated(x))) {\n    return(any(is.na(\n      x)))\n  }\n}\n",
        "# jarl-ignore any_is_na: r\nx3 <- any(is.na(y))\n",
        "# jarl-ignore unused_function: r\nh <- function() any(is.na(1))\n",
        "u <- function() f(any(is.na('\u{e9}')))\r\n",
        "# jarl-ignore duplicated_function_definition: r\ng <- function() 2\n",
        "if (is.null(x) == TRUE) h()\n",
    ];
    let words = mcx::Words::new(PARTS.len(), 3);
    let words2 = mcx::Words::new(PARTS.len(), 2);
    let n = words.count() * words2.count();
    let step = c.pick(5, 1);
    let total = n / step;
    let make = |i: u64| -> [String; 2] {
        let mut w = vec![];
        let mut texts = [String::new(), String::new()];
        words.get(i % words.count(), &mut w);
        texts[0] = w.iter().map(|k| PARTS[*k]).collect();
        words2.get(i / words.count(), &mut w);
        texts[1] = w.iter().map(|k| PARTS[*k]).collect();
        texts
    };
    const MODES: &[&[&str]] = &[&["--fix"], &["--fix", "--unsafe-fixes"]];
    type One = (String, u64, u64, String, String);
    let lint = |dir: &Path, more: &[&str]| -> Result<BTreeSet<One>, String> {
        let mut a = vec!["check", ".", "--select", "ALL,unused_function", "--output-format", "json", "--allow-no-vcs"];
        a.extend(more);
        let r = cli::run_home(dir, dir, &a);
        let v: Value = serde_json::from_str(&r.out).map_err(|e| format!("{e}: {}{}", r.out, r.err))?;
        let mut out = BTreeSet::new();
        for d in v["diagnostics"].as_array().ok_or("no diagnostics")? {
            let m = &d["message"];
            out.insert((d["filename"].as_str().unwrap().to_string(), d["range"][0].as_u64().unwrap(), d["range"][1].as_u64().unwrap(), m["name"].as_str().unwrap().to_string(), format!("{} {} {}", m["body"], m["suggestion"], d["location"])));
        }
        Ok(out)
    };
    let batch = |some: &[u64], mode: usize| {
        let s = base.sub();
        for i in some {
            let t = make(*i);
            write(s.dir.join(format!("p{i}/DESCRIPTION")), "Package: p\nDepends: R (>= 4.5)\n");
            write(s.dir.join(format!("p{i}/NAMESPACE")), "");
            write(s.dir.join(format!("p{i}/R/a.R")), &t[0]);
            write(s.dir.join(format!("p{i}/R/b.R")), &t[1]);
        }
        c.eval(some.len() as u64);
        let (fixed, after) = match lint(&s.dir, MODES[mode]).and_then(|a| Ok((a, lint(&s.dir, &[])?))) {
            Ok(x) => x,
            Err(e) => return c.violation("fails", e, json!({"cases": some, "mode": mode})),
        };
        for i in some {
            let of = |v: &BTreeSet<One>| -> Vec<One> { v.range((format!("p{i}/"), 0, 0, String::new(), String::new())..(format!("p{i}0"), 0, 0, String::new(), String::new())).cloned().collect() };
            let (x, y) = (of(&fixed), of(&after));
            let about = |v: &[One]| -> Vec<One> { v.iter().filter(|d| d.3 == "unused_function" || d.3.starts_with("duplicated_f")).cloned().collect() };
            let changed = make(*i)[0] != std::fs::read_to_string(s.dir.join(format!("p{i}/R/a.R"))).unwrap();
            c.nontriv((changed && !about(&y).is_empty()) as u64);
            c.outcome(if changed { "fixed" } else { "nothing to fix" }, 1);
            if about(&x) != about(&y) || x.iter().any(|d| !y.contains(d)) || mode == 1 && x != y {
                c.violation("report", format!("{:?}: {:?} reports {x:?} but afterwards {y:?} is reported", make(*i), MODES[mode]), json!({"cases": [i], "mode": mode}));
            }
        }
    };
    if let Some(r) = c.replay() {
        let v: Vec<u64> = r["cases"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        batch(&v, r["mode"].as_u64().unwrap() as usize);
        c.finish();
    }
    const SIZE: u64 = 200;
    c.par_named(
        total.div_ceil(SIZE) * 2,
        "batch",
        |k| {
            let (mode, k) = ((k % 2) as usize, k / 2);
            let some: Vec<u64> = (k * SIZE..((k + 1) * SIZE).min(total)).map(|i| i * step).collect();
            batch(&some, mode)
        },
        |k| json!({"cases": [k / 2 * SIZE * step], "mode": k % 2}),
    );
    c.finish()
}
