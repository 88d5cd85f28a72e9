//! T01 T02 T03 T04: the developer tools' scopes (working directory, environment) and
//! the way they start programs.

use mcx::*;
use std::path::PathBuf;
use xtask::run;
use std::sync::atomic::Ordering::SeqCst;

enum Guard {
    #[allow(dead_code)]
    D(xtask::glue::Pushd),
    #[allow(dead_code)]
    E(xtask::glue::Pushenv),
}

/// T01: every nesting of scopes restores what was there before.
fn scopes() {
    let check = Check::new("T01", "model_checking");
    let scratch = std::env::temp_dir().join(format!("mc-glue-{}", std::process::id()));
    std::fs::create_dir_all(scratch.join("a/b")).unwrap();
    std::fs::create_dir_all(scratch.join("c")).unwrap();
    let scratch = scratch.canonicalize().unwrap();
    std::env::set_current_dir(&scratch).unwrap();
    // Pushes; `None` closes the innermost scope.
    let dirs: [&str; 4] = ["a", "..", ".", "ABS"];
    let envs: [(&str, &str); 5] = [("MC_X", "1"), ("MC_X", "2"), ("MC_Y", "1"), ("MC_Y", ""), ("MC_X", "")];
    let k = 1 + dirs.len() + envs.len();
    let look = |v: &str| std::env::var_os(v);
    let words = Words::new(k, check.pick(5, 7));
    let mut w = vec![];
    let only = check.replay().map(|r| r["index"].as_u64().unwrap());
    for initial in [false, true] {
        unsafe {
            if initial { std::env::set_var("MC_X", "before") } else { std::env::remove_var("MC_X") }
            std::env::remove_var("MC_Y");
        }
        let range = only.map(|i| i..i + 1).unwrap_or(0..words.count());
        'next: for i in range {
            words.get(i, &mut w);
            // Model: a stack of (cwd, X, Y).
            let mut model: Vec<(PathBuf, Option<std::ffi::OsString>, Option<std::ffi::OsString>)> =
                vec![(scratch.clone(), look("MC_X"), look("MC_Y"))];
            let mut guards: Vec<Guard> = vec![];
            let mut bad = None;
            for &l in &w {
                if l == 0 {
                    if guards.pop().is_none() {
                        continue 'next;
                    }
                    model.pop();
                } else if l <= dirs.len() {
                    let d = dirs[l - 1];
                    let mut top = model.last().unwrap().clone();
                    let target = if d == "ABS" { scratch.join("c") } else { top.0.join(d) };
                    let Ok(t) = target.canonicalize() else { continue 'next };
                    if !t.starts_with(&scratch) {
                        continue 'next;
                    }
                    let arg: PathBuf = if d == "ABS" { scratch.join("c") } else { d.into() };
                    match catch(|| xtask::pushd(arg)) {
                        Ok(g) => guards.push(Guard::D(g)),
                        Err(p) => {
                            bad = Some(p);
                            break;
                        }
                    }
                    top.0 = t;
                    model.push(top);
                } else {
                    let (n, v) = envs[l - 1 - dirs.len()];
                    guards.push(Guard::E(xtask::pushenv(n, v)));
                    let mut top = model.last().unwrap().clone();
                    if n == "MC_X" { top.1 = Some(v.into()) } else { top.2 = Some(v.into()) }
                    model.push(top);
                }
                check.transitions.fetch_add(1, SeqCst);
                let now = (std::env::current_dir().unwrap(), look("MC_X"), look("MC_Y"));
                if now != *model.last().unwrap() {
                    bad = Some(format!("expected {:?}, found {now:?}", model.last().unwrap()));
                    break;
                }
            }
            while let Some(g) = guards.pop() {
                drop(g);
                model.truncate(guards.len() + 1);
                let now = (std::env::current_dir().unwrap(), look("MC_X"), look("MC_Y"));
                if bad.is_none() && now != *model.last().unwrap() {
                    bad = Some(format!("at the end: expected {:?}, found {now:?}", model.last().unwrap()));
                }
            }
            check.states.fetch_add(1, SeqCst);
            check.validated.fetch_add(1, SeqCst);
            if let Some(b) = bad {
                check.violation("scope", format!("{w:?}: {b}"), json!({"index": i, "word": w}));
                std::env::set_current_dir(&scratch).unwrap();
                unsafe {
                    if initial { std::env::set_var("MC_X", "before") } else { std::env::remove_var("MC_X") }
                    std::env::remove_var("MC_Y");
                }
                if check.stopped() { break; }
            }
        }
    }
    std::env::set_current_dir("/").unwrap();
    std::fs::remove_dir_all(&scratch).ok();
    check.rule("Every sequence of scope openings (4 directories, 5 environment settings) and closings up to the length bound, with the variable set and unset before; the process's own working directory and environment are compared with a stack after every step. states = complete sequences, transitions = steps.");
    check.sample(json!({"word": "pushd a; pushenv MC_X=1; pushd ..; pushenv MC_X=2; close; close; close; close"}));
    check.finish();
}

/// T02: what reaches a started program, and what comes back.
fn commands() {
    let check = Check::new("T02", "exploration");
    let me = std::env::current_exe().unwrap();
    let me = me.to_str().unwrap().to_string();
    assert!(!me.contains([' ', '\'']));
    let letters = ["a", "B-", " ", "'", "\t", "\"", "$x", "\u{e9}"];
    let words = Words::new(letters.len(), check.pick(4, 5));
    unsafe { std::env::set_var("MC_ECHO_ARGS", "1") };
    let go = |i: u64| {
        let mut w = vec![];
        words.get(i, &mut w);
        let text: String = w.iter().map(|l| letters[*l]).collect();
        // Quotes must pair up and stand apart from what is around them.
        let parts: Vec<&str> = text.split('\'').collect();
        if parts.len() % 2 == 0 {
            return;
        }
        let mut want: Vec<String> = vec![];
        for (k, p) in parts.iter().enumerate() {
            if k % 2 == 1 {
                want.push(p.to_string());
            } else {
                let first = k == 0;
                let last = k + 1 == parts.len();
                if !first && !(last && p.is_empty()) && !p.starts_with([' ', '\t']) {
                    return;
                }
                if !last && !first && !p.ends_with([' ', '\t']) {
                    return;
                }
                if first && !last && !p.is_empty() && !p.ends_with([' ', '\t']) {
                    return;
                }
                want.extend(p.split_ascii_whitespace().map(|s| s.to_string()));
            }
        }
        let got = catch(|| xtask::run!("{me} {text}"; echo = false).map_err(|e| format!("{e:#}")));
        let parsed: Option<Vec<String>> = match &got {
            Ok(Ok(s)) => serde_json::from_str(s).ok(),
            _ => None,
        };
        check.eval(1);
        check.nontriv(text.contains('\'') as u64);
        if parsed.as_ref() != Some(&want) {
            check.violation("arguments", format!("{text:?} should give {want:?}; got {got:?}"), json!({"index": i}));
        }
    };
    if let Some(r) = check.replay() {
        if let Some(i) = r["index"].as_u64() {
            go(i);
            check.finish();
        }
    }
    check.par(words.count(), go);
    // Exit status, output, input.
    for code in 0..=255u32 {
        let r = xtask::run!("{me} exit {code}"; echo = false);
        check.eval(1);
        if r.is_ok() != (code == 0) {
            check.violation("status", format!("exit status {code} gave {r:?}"), json!({"code": code}));
        }
    }
    for input in ["", "x", "a\nb\n", "  padded  ", "\u{e9}\u{1f600}"] {
        let r = xtask::run!("{me} cat"; <input.as_bytes()).map_err(|e| e.to_string());
        check.eval(1);
        if r.as_deref() != Ok(input.trim()) {
            check.violation("input", format!("{input:?} came back as {r:?}"), json!({"input": input}));
        }
    }
    // What is echoed: the command and its output, or nothing.
    for mode in ["echo", "quiet", "stdin", "plain"] {
        for text in ["", "x", "a\nb"] {
            let o = std::process::Command::new(&me).args(["run", mode, text]).output().unwrap();
            let out = String::from_utf8_lossy(&o.stdout).into_owned();
            let want = match mode {
                "echo" | "plain" => format!("> {me} print '{text}'\n{text}"),
                _ => String::new(),
            };
            check.eval(1);
            if out != want || !o.status.success() {
                check.violation("echo", format!("mode {mode}, output {text:?}: wrote {out:?}, not {want:?}"), json!({"mode": mode, "text": text}));
            }
        }
    }
    // The date of today.
    let day = || {
        let o = std::process::Command::new("date").args(["-u", "+%Y-%m-%d"]).output().unwrap();
        String::from_utf8(o.stdout).unwrap().trim().to_string()
    };
    let before = day();
    let got = xtask::glue::date_iso().map_err(|e| e.to_string());
    let after = day();
    check.eval(1);
    if got.as_ref() != Ok(&before) && got.as_ref() != Ok(&after) {
        check.violation("date", format!("today is {after}, not {got:?}"), json!({"date": true}));
    }
    check.rule("Every argument text over 8 fragments (letters, blanks, single and double quotes, a dollar, a non-ASCII letter) up to the length bound whose single quotes pair up and stand apart; a real process reports the arguments it got. Every exit status 0-255; five inputs.");
    check.sample(json!({"command": "a 'B- a' \u{e9}"}));
    check.finish();
}

/// What lies at a path: nothing, a file, a directory with what is in it, a link.
fn look_at(p: &std::path::Path) -> Value {
    let Ok(m) = std::fs::symlink_metadata(p) else { return Value::Null };
    if m.file_type().is_symlink() {
        json!({"link": std::fs::read_link(p).unwrap()})
    } else if m.is_file() {
        json!(std::fs::read(p).unwrap())
    } else {
        let mut o = serde_json::Map::new();
        for e in std::fs::read_dir(p).unwrap() {
            let e = e.unwrap();
            o.insert(e.file_name().to_string_lossy().into_owned(), look_at(&e.path()));
        }
        Value::Object(o)
    }
}

/// T03: the file helpers do what they say to the path they are given, to
/// nothing else, and name it when they cannot.
fn files() {
    use xtask::glue::fs2;
    let check = Check::new("T03", "exploration");
    let base = std::env::temp_dir().join(format!("mc-fs2-{}", std::process::id()));
    remove_at_end(&base);
    // What is at the first and at the second path.
    let kinds = ["nothing", "empty file", "file", "empty dir", "dir", "deep dir", "link to file", "link to dir", "dangling link"];
    let names = ["x", "name with blank", "x.R", "\u{e9}", "d/x", ".hidden"];
    let ops = ["rm_rf", "read_dir", "read_to_string", "write", "copy", "remove_file", "remove_dir_all", "create_dir_all"];
    let make = |p: &std::path::Path, kind: &str, other: &std::path::Path| {
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        match kind {
            "nothing" => {}
            "empty file" => std::fs::write(p, "").unwrap(),
            "file" => std::fs::write(p, "text\n").unwrap(),
            "empty dir" => std::fs::create_dir(p).unwrap(),
            "dir" => {
                std::fs::create_dir(p).unwrap();
                std::fs::write(p.join("a"), "1").unwrap();
                std::os::unix::fs::symlink(other.join("keep"), p.join("l")).unwrap();
                std::os::unix::fs::symlink(other, p.join("m")).unwrap();
            }
            "deep dir" => {
                std::fs::create_dir_all(p.join("a/b/c")).unwrap();
                std::fs::write(p.join("a/b/f"), "2").unwrap();
            }
            "link to file" => std::os::unix::fs::symlink(other.join("keep"), p).unwrap(),
            "link to dir" => std::os::unix::fs::symlink(other, p).unwrap(),
            _ => std::os::unix::fs::symlink(other.join("gone"), p).unwrap(),
        }
    };
    let space = Product::new(&[ops.len(), kinds.len(), kinds.len(), names.len()]);
    let go = |i: u64| {
        let mut d = vec![];
        space.get(i, &mut d);
        let (op, first, second, name) = (ops[d[0]], kinds[d[1]], kinds[d[2]], names[d[3]]);
        if op != "copy" && d[2] != 0 {
            return;
        }
        let home = base.join(format!("c{i}"));
        let (ws, other) = (home.join("work"), home.join("other"));
        std::fs::create_dir_all(&ws).unwrap();
        std::fs::create_dir_all(&other).unwrap();
        std::fs::write(other.join("keep"), "kept").unwrap();
        std::fs::write(ws.join("sibling"), "s").unwrap();
        let p = ws.join(name);
        make(&p, first, &other);
        let q = ws.join("second");
        make(&q, second, &other);
        let set = |v: &mut Value, rel: &str, to: Value| {
            let mut at = v.get_mut("work").unwrap();
            let parts: Vec<&str> = rel.split('/').collect();
            for s in &parts[..parts.len() - 1] {
                at = at.get_mut(*s).unwrap();
            }
            let last = parts[parts.len() - 1];
            match to {
                Value::Null => {
                    at.as_object_mut().unwrap().remove(last);
                }
                v => at[last] = v,
            }
        };
        let before = look_at(&home);
        let mut want = before.clone();
        let is_file = |k: &str| matches!(k, "empty file" | "file" | "link to file");
        let is_dir = |k: &str| matches!(k, "empty dir" | "dir" | "deep dir" | "link to dir");
        let text = |k: &str| match k {
            "empty file" => "",
            "file" => "text\n",
            _ => "kept",
        };
        // Whether it must work, what it gives, and what is there afterwards.
        let works;
        let mut gives = String::new();
        let got: Result<String, String> = match op {
            "rm_rf" => {
                works = true;
                if first != "dangling link" {
                    set(&mut want, name, Value::Null);
                }
                catch(|| xtask::glue::rm_rf(&p).map(|_| String::new()).map_err(|e| format!("{e:#}"))).and_then(|r| r)
            }
            "read_dir" => {
                works = is_dir(first);
                if works {
                    let mut l: Vec<String> = std::fs::read_dir(&p).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
                    l.sort();
                    gives = l.join(",");
                }
                catch(|| fs2::read_dir(&p).map_err(|e| format!("{e:#}"))).and_then(|r| r).map(|r| {
                    let mut l: Vec<String> = r.map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
                    l.sort();
                    l.join(",")
                })
            }
            "read_to_string" => {
                works = is_file(first);
                if works {
                    gives = text(first).into();
                }
                catch(|| fs2::read_to_string(&p).map_err(|e| format!("{e:#}"))).and_then(|r| r)
            }
            "write" => {
                works = !is_dir(first);
                match first {
                    "link to file" => want["other"]["keep"] = json!(b"new"),
                    "dangling link" => want["other"]["gone"] = json!(b"new"),
                    _ if works => set(&mut want, name, json!(b"new")),
                    _ => {}
                }
                catch(|| fs2::write(&p, "new").map(|_| String::new()).map_err(|e| format!("{e:#}"))).and_then(|r| r)
            }
            "copy" => {
                // A copy through two links to one file empties it; nobody asks for that.
                if first == "link to file" && second == "link to file" {
                    std::fs::remove_dir_all(&home).unwrap();
                    return;
                }
                works = is_file(first) && !is_dir(second) && second != "dangling link";
                if second == "dangling link" && is_file(first) {
                    // whether a file is created through a dangling link is the system's
                    std::fs::remove_dir_all(&home).unwrap();
                    return;
                }
                if works {
                    gives = text(first).len().to_string();
                    let t = json!(text(first).as_bytes());
                    if second == "link to file" { want["other"]["keep"] = t } else { set(&mut want, "second", t) }
                }
                catch(|| fs2::copy(&p, &q).map(|n| n.to_string()).map_err(|e| format!("{e:#}"))).and_then(|r| r)
            }
            "remove_file" => {
                works = first != "nothing" && (!is_dir(first) || first == "link to dir");
                if works {
                    set(&mut want, name, Value::Null);
                }
                catch(|| fs2::remove_file(&p).map(|_| String::new()).map_err(|e| format!("{e:#}"))).and_then(|r| r)
            }
            "remove_dir_all" => {
                // Links are the platform's business here: some remove them, some refuse.
                if first.contains("link") {
                    std::fs::remove_dir_all(&home).unwrap();
                    return;
                }
                works = is_dir(first);
                if works {
                    set(&mut want, name, Value::Null);
                }
                catch(|| fs2::remove_dir_all(&p).map(|_| String::new()).map_err(|e| format!("{e:#}"))).and_then(|r| r)
            }
            _ => {
                works = first == "nothing" || is_dir(first);
                if first == "nothing" {
                    set(&mut want, name, json!({}));
                }
                catch(|| fs2::create_dir_all(&p).map(|_| String::new()).map_err(|e| format!("{e:#}"))).and_then(|r| r)
            }
        };
        check.eval(1);
        check.nontriv((before != want || !works) as u64);
        let after = look_at(&home);
        let bad = match &got {
            Ok(g) if !works => Some(format!("should fail, gave {g:?}")),
            Ok(g) if *g != gives => Some(format!("gave {g:?}, not {gives:?}")),
            Err(e) if works => Some(format!("failed: {e}")),
            Err(e) if !e.contains(&*p.to_string_lossy()) => Some(format!("the error does not name {}: {e}", p.display())),
            _ => None,
        };
        let bad = bad.or_else(|| (after != want).then(|| format!("left {after} instead of {want}")));
        if let Some(b) = bad {
            check.violation(op, format!("{op} of {name:?} ({first}{}{second}): {b}", if op == "copy" { " to " } else { ", " }), json!({"index": i}));
        }
        let _ = std::fs::remove_dir_all(&home);
    };
    if let Some(r) = check.replay() {
        go(r["index"].as_u64().unwrap_or(0));
        check.finish();
    }
    check.par(space.count(), go);
    check.rule("Every file helper x everything that can lie at its path (nothing, files, directories with files, links and links inside) x everything at the second path of a copy x six path texts; the whole scratch tree is compared before and after, and every failure must name its path.");
    check.sample(json!({"op": "rm_rf", "path": "x", "kind": "dir with links out of it"}));
    check.finish();
}

/// T04: generated sources are marked as such and went through the stable
/// formatter, or there is an error; nothing of it stays in the environment.
fn generated() {
    let check = Check::new("T04", "exploration");
    let base = std::env::temp_dir().join(format!("mc-gen-{}", std::process::id()));
    std::fs::create_dir_all(base.join("bin")).unwrap();
    remove_at_end(&base);
    // A formatter that notes how it was started.
    let script = "#!/bin/sh\necho \"$RUSTUP_TOOLCHAIN|$*\" >> \"$MC_DIR/calls\"\nif [ \"$1\" = --version ]; then cat \"$MC_DIR/version\"; exit \"$MC_V\"; fi\ncat > \"$MC_DIR/stdin\"\ncat \"$MC_DIR/out\"\nexit \"$MC_F\"\n";
    let exe = base.join("bin/rustfmt");
    std::fs::write(&exe, script).unwrap();
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&exe, std::fs::Permissions::from_mode(0o755)).unwrap();
    let path = std::env::var("PATH").unwrap();
    unsafe {
        std::env::set_var("PATH", format!("{}:{path}", base.join("bin").display()));
        std::env::set_var("MC_DIR", &base);
    }
    let versions = ["rustfmt 1.8.0-stable (2024-01-01)\n", "rustfmt 1.8.0-nightly (2024-01-01)\n", "rustfmt 1.8.0-dev\n", ""];
    let outputs = ["fn a() {}\n", "fn a() {}", "\n\nfn a() {}\n\n", "", "// \u{e9}\r\nx\n"];
    let inputs = ["fn a(){}", "", "'quoted' $x {}\n\u{e9}"];
    let statuses = [0, 1, 101];
    let before = [None, Some("nightly"), Some("")];
    let kinds = ["reformat", "reformat_with_command", "reformat_without_preamble", "ensure_rustfmt"];
    let space = Product::new(&[versions.len(), outputs.len(), inputs.len(), statuses.len(), statuses.len(), before.len(), kinds.len()]);
    let mut d = vec![];
    let range = check.replay().map(|r| r["index"].as_u64().unwrap_or(0)).map(|i| i..i + 1).unwrap_or(0..space.count());
    for i in range {
        space.get(i, &mut d);
        let (version, output, input, v, f, env, kind) =
            (versions[d[0]], outputs[d[1]], inputs[d[2]], statuses[d[3]], statuses[d[4]], before[d[5]], kinds[d[6]]);
        // The dimensions that matter one at a time, the rest at their first value.
        let off = [d[0], d[1], d[2], d[3], d[4], d[5]].iter().filter(|x| **x != 0).count();
        if off > check.pick(2, 3) {
            continue;
        }
        std::fs::write(base.join("version"), version).unwrap();
        std::fs::write(base.join("out"), output).unwrap();
        let _ = std::fs::remove_file(base.join("calls"));
        let _ = std::fs::remove_file(base.join("stdin"));
        unsafe {
            std::env::set_var("MC_V", v.to_string());
            std::env::set_var("MC_F", f.to_string());
            match env {
                None => std::env::remove_var("RUSTUP_TOOLCHAIN"),
                Some(e) => std::env::set_var("RUSTUP_TOOLCHAIN", e),
            }
        }
        let got = catch(|| match kind {
            "reformat" => xtask::reformat(input),
            "reformat_with_command" => xtask::reformat_with_command(input, "cargo xtask"),
            "reformat_without_preamble" => xtask::reformat_without_preamble(input),
            _ => {
                let _e = xtask::pushenv("RUSTUP_TOOLCHAIN", "stable");
                xtask::ensure_rustfmt().map(|_| String::new())
            }
        });
        check.eval(1);
        let stable = v == 0 && version.contains("stable");
        let works = stable && (f == 0 || kind == "ensure_rustfmt");
        let body = format!("{}\n", output.trim());
        let want = match kind {
            "reformat" => format!("//! {}\n\n{body}", xtask::PREAMBLE),
            "reformat_with_command" => format!(
                "//! This is a generated file. Don't modify it by hand! Run 'cargo xtask' to re-generate the file.\n\n{body}"
            ),
            "reformat_without_preamble" => body,
            _ => String::new(),
        };
        check.nontriv(!works as u64);
        let calls = std::fs::read_to_string(base.join("calls")).unwrap_or_default();
        let mut want_calls = String::from("stable|--version\n");
        if stable && kind != "ensure_rustfmt" {
            want_calls += "stable|--config newline_style=Unix\n";
        }
        let stdin = std::fs::read_to_string(base.join("stdin")).unwrap_or_default();
        let bad = match &got {
            Err(p) => Some(format!("panic: {p}")),
            Ok(Ok(g)) if !works => Some(format!("should fail, gave {g:?}")),
            Ok(Ok(g)) if *g != want => Some(format!("gave {g:?}, not {want:?}")),
            Ok(Err(e)) if works => Some(format!("failed: {e:#}")),
            _ if calls != want_calls => Some(format!("the formatter was started as {calls:?}, not {want_calls:?}")),
            _ if stable && kind != "ensure_rustfmt" && stdin != input => Some(format!("the formatter got {stdin:?}")),
            _ if std::env::var("RUSTUP_TOOLCHAIN").ok().as_deref() != env => {
                Some(format!("RUSTUP_TOOLCHAIN is left as {:?}", std::env::var("RUSTUP_TOOLCHAIN").ok()))
            }
            _ => None,
        };
        if let Some(b) = bad {
            check.violation(
                kind,
                format!("{kind} of {input:?} with the formatter {version:?} (status {v}), output {output:?} (status {f}), RUSTUP_TOOLCHAIN {env:?}: {b}"),
                json!({"index": i}),
            );
        }
    }
    // The root of the project from the place of the crate.
    for (dir, root) in [("/a/b/c", "/a"), ("/r/crates/x", "/r"), ("/x/xtask/codegen", "/x"), ("/deep/er/r\u{e9}/xtask/y", "/deep/er/r\u{e9}")] {
        unsafe { std::env::set_var("CARGO_MANIFEST_DIR", dir) };
        let got = catch(xtask::project_root);
        check.eval(1);
        if got.as_deref().ok() != Some(std::path::Path::new(root)) {
            check.violation("root", format!("the root for a crate in {dir} is {root}, not {got:?}"), json!({"dir": dir}));
        }
    }
    for content in ["", "fn a() {}\n"] {
        let got = xtask::prepend_generated_preamble(content);
        check.eval(1);
        if got != format!("//! {}\n\n{content}", xtask::PREAMBLE) || !xtask::PREAMBLE.to_lowercase().contains("generated") || xtask::PREAMBLE.contains('\n') {
            check.violation("preamble", format!("{content:?} gives {got:?}"), json!({"content": content}));
        }
    }
    check.rule("Every combination in which at most two (thorough: three) of version text, formatter output, input, both exit statuses and the previous toolchain setting differ from the ordinary one, for the four entry points, with a stand-in formatter that records how it was started; four crate places.");
    check.sample(json!({"version": "rustfmt 1.8.0-nightly", "kind": "reformat"}));
    check.finish();
}

fn main() {
    if std::env::var_os("MC_ECHO_ARGS").is_some() {
        let args: Vec<String> = std::env::args().skip(1).collect();
        match args.first().map(|s| s.as_str()) {
            Some("exit") => std::process::exit(args[1].parse().unwrap()),
            Some("cat") => {
                std::io::copy(&mut std::io::stdin(), &mut std::io::stdout()).unwrap();
            }
            Some("print") => {
                // A program that ends without reading its input may end while it is written
                std::io::copy(&mut std::io::stdin(), &mut std::io::sink()).unwrap();
                print!("{}", args[1])
            }
            Some("run") => {
                let me = std::env::current_exe().unwrap();
                let (me, text) = (me.to_str().unwrap(), &args[2]);
                let r = match args[1].as_str() {
                    "echo" => xtask::run!("{me} print '{text}'"; echo = true),
                    "quiet" => xtask::run!("{me} print '{text}'"; echo = false),
                    "stdin" => xtask::run!("{me} print '{text}'"; <b"in"),
                    _ => run!("{me} print '{text}'"),
                };
                std::process::exit(if r.map_err(|e| e.to_string()).as_deref() == Ok(text.trim()) { 0 } else { 3 });
            }
            _ => print!("{}", serde_json::to_string(&args).unwrap()),
        }
        return;
    }
    match std::env::args().nth(1).as_deref() {
        Some("T01") => scopes(),
        Some("T03") => files(),
        Some("T04") => generated(),
        _ => commands(),
    }
}
