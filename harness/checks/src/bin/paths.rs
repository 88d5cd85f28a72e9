//! F01 F02: which files are R, R Markdown or neither; how paths are resolved and shown.

#[allow(dead_code)]
use jarl_core::fs;

use mcx::*;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Extension of the last component, as text after its last dot (a leading dot is no extension).
fn model_ext(name: &str) -> Option<&str> {
    let i = name.rfind('.')?;
    (i > 0 && name != "..").then(|| &name[i + 1..])
}

fn kinds(ck: &Check, n: &AtomicU64, nt: &AtomicU64) {
    let letters = ["r", "R", "m", "M", "d", "D", "q", "Q", ".", "x", "é", " "];
    let w = Words::new(letters.len(), ck.pick(6, 7));
    ck.par(w.count(), |i| {
        let mut ix = vec![];
        w.get(i, &mut ix);
        let s: String = ix.iter().map(|k| letters[*k]).collect();
        let is_r = s == "r" || s == "R";
        let is_md = ["rmd", "Rmd", "qmd", "Qmd"].contains(&s.as_str());
        let bad = |what: &str, p: &str| ck.violation("kind", format!("{p:?}: {what}"), json!({ "path": p }));
        n.fetch_add(1, Relaxed);
        if is_r || is_md {
            nt.fetch_add(1, Relaxed);
        }
        if fs::is_r_extension(&s) != is_r {
            bad("R extension", &s);
        }
        if fs::is_rmd_extension(&s) != is_md {
            bad("Rmd extension", &s);
        }
        if fs::is_r_extension(&s) && fs::is_rmd_extension(&s) {
            bad("both kinds", &s);
        }
        if ix.len() <= 5 {
            for name in [format!("f.{s}"), s.clone(), format!("d.R/{s}"), format!("d.Rmd/f.{s}"), format!(".{s}"), format!("/a b/ñ.{s}")] {
                let p = Path::new(&name);
                let last = p.file_name().and_then(|x| x.to_str());
                let ext = last.and_then(model_ext);
                n.fetch_add(1, Relaxed);
                if fs::has_r_extension(p) != ext.is_some_and(|e| e == "r" || e == "R") {
                    bad("R file", &name);
                }
                if fs::has_rmd_extension(p) != ext.is_some_and(|e| ["rmd", "Rmd", "qmd", "Qmd"].contains(&e)) {
                    bad("Rmd file", &name);
                }
                if fs::has_r_extension(p) && fs::has_rmd_extension(p) {
                    bad("both kinds of file", &name);
                }
            }
        }
    });
    use std::os::unix::ffi::OsStrExt;
    for raw in [&b"f.\xff"[..], b"f\xff.R", b"\xff.Rmd", b"f.R\xff"] {
        let p = Path::new(std::ffi::OsStr::from_bytes(raw));
        let r = catch(|| (fs::has_r_extension(p), fs::has_rmd_extension(p)));
        let want = match raw {
            b"f\xff.R" => (true, false),
            b"\xff.Rmd" => (false, true),
            _ => (false, false),
        };
        n.fetch_add(1, Relaxed);
        if r != Ok(want) {
            ck.violation("kind", format!("{raw:?}: {r:?}"), json!({ "path_bytes": raw }));
        }
    }
}

/// Lexical resolution against the working directory.
fn model_abs(cwd: &str, p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{cwd}/{p}") };
    let mut out: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

fn resolve(ck: &Check, n: &AtomicU64, nt: &AtomicU64) {
    let cwd = std::env::current_dir().unwrap();
    let cwd_s = cwd.to_str().unwrap().to_string();
    let comps = ["a", ".", "..", "b.R", "é", "a b", "", "...", "x~"];
    let w = Words::new(comps.len(), ck.pick(5, 6));
    ck.par(w.count(), |i| {
        let mut ix = vec![];
        w.get(i, &mut ix);
        let rel: Vec<&str> = ix.iter().map(|k| comps[*k]).collect();
        let joined = rel.join("/");
        for (style, p) in [("relative", joined.clone()), ("absolute", format!("/{joined}")), ("below", format!("{cwd_s}/{joined}")), ("beside", format!("{cwd_s}x/{joined}"))] {
            // A leading empty component turns a relative path absolute; fine.
            if p.is_empty() {
                continue;
            }
            n.fetch_add(1, Relaxed);
            let bad = |sig: &str, what: String| ck.violation(sig, format!("{style} {p:?}: {what}"), json!({ "path": p, "cwd": cwd_s }));
            let want = model_abs(&cwd_s, &p);
            let got = match catch(|| fs::normalize_path(&p)) {
                Ok(g) => g,
                Err(e) => return bad("panic", e),
            };
            if got != PathBuf::from(&want) || got.as_os_str() != want.as_str() {
                bad("normalize", format!("{got:?} instead of {want:?}"));
            }
            if fs::normalize_path(&got) != got {
                bad("normalize", "normalizing twice changes the path".into());
            }
            let shown = match catch(|| fs::relativize_path(&got)) {
                Ok(g) => g,
                Err(e) => return bad("panic", e),
            };
            let want_shown = if want == cwd_s {
                String::new()
            } else if let Some(r) = want.strip_prefix(&format!("{cwd_s}/")) {
                r.to_string()
            } else {
                want.clone()
            };
            if shown != want_shown {
                bad("relativize", format!("{shown:?} instead of {want_shown:?}"));
            }
            // What is shown still names the same file.
            if !shown.is_empty() && fs::normalize_path(&shown) != got {
                bad("round-trip", format!("{shown:?} names {:?}, not {got:?}", fs::normalize_path(&shown)));
            }
            if want.starts_with(&format!("{cwd_s}/")) {
                nt.fetch_add(1, Relaxed);
            }
        }
    });
}

fn main() {
    let prop = std::env::args().nth(1).expect("property");
    let ck = Check::new(&prop, "exploration");
    let (n, nt) = (AtomicU64::new(0), AtomicU64::new(0));
    if prop == "F01" {
        ck.rule("every extension over the letters up to the bound, alone and in six kinds of path; non-trivial = an R or R Markdown extension");
        ck.sample(json!("d.Rmd/f.R"));
        kinds(&ck, &n, &nt);
    } else {
        ck.rule("every sequence of path components up to the bound, relative, absolute, below and beside the working directory; non-trivial = the path lies below the working directory");
        ck.sample(json!("a/../b.R/./é"));
        ck.assume("resolution is lexical: symbolic links are not followed");
        resolve(&ck, &n, &nt);
    }
    ck.eval(n.into_inner());
    ck.nontriv(nt.into_inner());
    ck.finish()
}
