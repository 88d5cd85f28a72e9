//! Z01 Z02 Z03: how the Zed extension finds, downloads and keeps its binary,
//! over every short history of calls and every fault of the host.

use fakestd::world::{self, World};
use mcx::*;
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::sync::atomic::Ordering::SeqCst;
use zed_extension_api::host::{Download, HOST, Host};
use zed_extension_api::*;

const OSES: [(Os, &str); 3] = [(Os::Mac, "apple-darwin"), (Os::Linux, "unknown-linux-gnu"), (Os::Windows, "pc-windows-msvc")];
const ARCHS: [(Architecture, &str); 3] =
    [(Architecture::Aarch64, "aarch64"), (Architecture::X86, "x86"), (Architecture::X8664, "x86_64")];

fn asset_name(os: usize, arch: usize) -> String {
    format!("jarl-{}-{}.{}", ARCHS[arch].1, OSES[os].1, if os == 2 { "zip" } else { "tar.gz" })
}
fn all_assets() -> Vec<String> {
    let mut v = vec!["jarl-installer.sh".into(), "source.tar.gz".into(), "jarl.schema.json".into(), "sha256.sum".into()];
    for o in 0..3 {
        for a in 0..3 {
            v.push(format!("{}.sha256", asset_name(o, a)));
            v.push(asset_name(o, a));
        }
    }
    v.push("jarl-x86_64-unknown-linux-musl.tar.gz".into());
    v.push("jarl-x86_64-pc-windows-msvc.msi".into());
    v
}
/// Where the archive for a platform keeps the binary.
fn inside(os: usize, arch: usize) -> String {
    if os == 2 { "jarl.exe".into() } else { format!("jarl-{}-{}/jarl", ARCHS[arch].1, OSES[os].1) }
}

// The environment of one call.
const SETTINGS: [&str; 6] = [
    "{}",
    r#"{"binary":{"path":"/opt/user jarl"}}"#,
    r#"{"binary":{"path":"/opt/user jarl","arguments":["server","--log","x y"]}}"#,
    r#"{"binary":{"arguments":["-v"]}}"#,
    r#"{"binary":{"arguments":[]}}"#,
    "error",
];
#[derive(Clone, Copy, PartialEq, Eq, Debug, serde::Serialize, serde::Deserialize, Hash, PartialOrd, Ord)]
enum Fault {
    No,
    Release,
    NoAsset,
    Download,
    Partial,
    ReadDir,
    Entry0,
    Entry1,
    Entry2,
    Remove,
}
use Fault::*;
const FAULTS: [Fault; 10] = [No, Release, NoAsset, Download, Partial, ReadDir, Entry0, Entry1, Entry2, Remove];
const VERSIONS: [&str; 3] = ["0.2.0", "0.2.0-1", "0.1.0"];

#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize)]
struct Call {
    settings: usize,
    which: bool,
    version: usize,
    fault: Fault,
    /// Before the call: 0 nothing, 1 the installed binaries vanish, 2 a
    /// directory takes the place of each binary, 3 leftovers appear, 4 many
    /// leftovers with names much like those of versions.
    event: usize,
}

fn set_host(os: usize, arch: usize, c: &Call) {
    let assets: Vec<GithubReleaseAsset> = all_assets()
        .into_iter()
        .filter(|n| c.fault != NoAsset || *n != asset_name(os, arch))
        .map(|name| GithubReleaseAsset { download_url: format!("https://dl/{}/{name}", VERSIONS[c.version]), name })
        .collect();
    HOST.with(|h| {
        *h.borrow_mut() = Some(Host {
            lsp: if SETTINGS[c.settings] == "error" { Err("no settings".into()) } else { Ok(SETTINGS[c.settings].into()) },
            which: c.which.then(|| "/usr/bin/jarl".into()),
            platform: (OSES[os].0, ARCHS[arch].0),
            release: if c.fault == Release {
                Err("github down".into())
            } else {
                Ok(GithubRelease { version: VERSIONS[c.version].into(), assets })
            },
            download: match c.fault {
                Fault::Download => host::Download::Err,
                Partial => host::Download::Partial,
                _ => Download::Ok(inside(os, arch)),
            },
            asked: vec![],
            downloads: vec![],
            which_asked: vec![],
            settings_asked: vec![],
            statuses: vec![],
        })
    });
    world::with(|w| {
        w.log.clear();
        w.fail_read_dir = c.fault == ReadDir;
        w.fail_entry = match c.fault {
            Entry0 => Some(0),
            Entry1 => Some(1),
            Entry2 => Some(2),
            _ => None,
        };
        w.fail_remove = (c.fault == Remove).then(|| "jarl-0.0.9".into());
        match c.event {
            1 => {
                for v in VERSIONS {
                    w.nodes.remove(&format!("jarl-{v}/{}", inside(os, arch)));
                }
            }
            2 => {
                for v in VERSIONS {
                    let p = format!("jarl-{v}/{}", inside(os, arch));
                    if w.nodes.contains_key(&p) {
                        w.nodes.insert(p, world::Node::Dir);
                    }
                }
            }
            3 => {
                w.put("jarl-0.0.9/old/jarl", b"old");
                w.mkdirs("zzz");
                w.put("notes.txt", b"n");
            }
            4 => {
                for i in 0..40 {
                    w.put(&format!("jarl-0.0.{i}/old/jarl"), b"old");
                }
                for n in ["jarl-0.2", "jarl-0.2.0.1", "jarl-0.2.00", "0.2.0", "JARL-0.2.0", "xjarl-0.2.0", "jarl-0.2.0 ", "jarl-v0.2.0", ".jarl-0.2.0", "jarl-"] {
                    w.mkdirs(n);
                }
            }
            _ => {}
        }
    });
}

struct Verdict {
    sig: &'static str,
    what: String,
}

/// Run a history on the real extension; judge every call.
fn run(os: usize, arch: usize, hist: &[Call], prop: &str, seen: &Mutex<BTreeMap<String, u64>>) -> Option<Verdict> {
    world::WORLD.with(|w| *w.borrow_mut() = World::default());
    let mut ext = zed_mc::ext::__new_extension();
    let mut cached: Option<String> = None;
    LAST.with(|l| l.borrow_mut().clear());
    let id = LanguageServerId("jarl".into());
    for (k, c) in hist.iter().enumerate() {
        set_host(os, arch, c);
        let before = world::with(|w| w.clone());
        let got = match catch(|| ext.language_server_command(&id, &Worktree)) {
            Ok(r) => r,
            Err(p) => return Some(Verdict { sig: "panic", what: format!("call {k}: {p}") }),
        };
        let after = world::with(|w| w.clone());
        let h = HOST.with(|h| h.borrow().clone().unwrap());
        let fail = |sig: &'static str, what: String| Some(Verdict { sig, what: format!("call {k} ({c:?}): {what}; got {got:?}") });

        let s = SETTINGS[c.settings];
        let v: Value = serde_json::from_str(s).unwrap_or(json!({}));
        let args: Vec<String> = v["binary"]["arguments"]
            .as_array()
            .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
            .unwrap_or_else(|| vec!["server".into()]);
        let user = v["binary"]["path"].as_str().map(|s| s.to_string());
        let dir = format!("jarl-{}", VERSIONS[c.version]);
        let bin = format!("{dir}/{}", inside(os, arch));

        // Which source must answer.
        let cached_here = cached.as_ref().is_some_and(|p| before.is_file(p));
        let source = if user.is_some() {
            "settings"
        } else if c.which {
            "path"
        } else if cached_here {
            "cache"
        } else if c.fault == Release || c.fault == NoAsset {
            "fail"
        } else if before.is_file(&bin) {
            "installed"
        } else if c.fault == Fault::Download || c.fault == Partial {
            "fail-download"
        } else {
            "download"
        };
        if k + 1 == hist.len() {
            *seen.lock().unwrap().entry(format!("{source} {}", if got.is_ok() { "ok" } else { "error" })).or_insert(0) += 1;
        }

        let expect_path = match source {
            "settings" => user.clone(),
            "path" => Some("/usr/bin/jarl".into()),
            "cache" => cached.clone(),
            "installed" | "download" => Some(bin.clone()),
            _ => None,
        };
        let cleanup_fault = source == "download" && matches!(c.fault, ReadDir | Entry0 | Entry1 | Entry2 | Remove);
        if prop == "Z01" {
            match (&expect_path, &got) {
                (None, Ok(_)) => return fail("no-error", format!("{source}: nothing to run, and no error")),
                (Some(p), Ok(cmd)) => {
                    if cmd.command != *p {
                        return fail("wrong-binary", format!("expected {p} ({source})"));
                    }
                    if cmd.args != args {
                        return fail("wrong-arguments", format!("expected {args:?}"));
                    }
                }
                (Some(p), Err(_)) if !cleanup_fault => {
                    return fail("no-binary", format!("expected {p} ({source})"));
                }
                _ => {}
            }
            if matches!(source, "settings" | "path" | "cache") && (!h.asked.is_empty() || !h.downloads.is_empty()) {
                return fail("needless-network", format!("the network was used although the binary came from {source}"));
            }
            if source == "installed" && !h.downloads.is_empty() {
                return fail("needless-download", "the latest release was already there".into());
            }
            if h.asked.iter().any(|a| a.0 != "etiennebacher/jarl" || a.2) {
                return fail("wrong-release", format!("{:?}", h.asked));
            }
        }
        if prop == "Z02" {
            let downloaded = h.downloads.iter().any(|d| d.3);
            let mut after_download = false;
            for (what, p) in &after.log {
                match what.as_str() {
                    "download" => after_download = downloaded,
                    "remove" | "rename" => {
                        if !after_download {
                            return fail("removed-early", format!("{p} was removed though nothing new was downloaded"));
                        }
                        if *p == dir || p.starts_with(&format!("{dir}/")) {
                            return fail("removed-current", format!("{p} was removed: it is the version to run"));
                        }
                    }
                    _ => return fail("outside", format!("{what} {p}")),
                }
            }
            if let Ok(cmd) = &got {
                if matches!(source, "cache" | "installed" | "download" | "fail" | "fail-download") && !after.is_file(&cmd.command) {
                    return fail("missing-binary", format!("{} is not there", cmd.command));
                }
            }
            if source == "download" && !cleanup_fault && got.is_ok() {
                let left: Vec<String> = after.children("").into_iter().filter(|p| after.is_dir(p) && *p != dir).collect();
                if !left.is_empty() {
                    return fail("not-cleaned", format!("outdated directories left: {left:?}"));
                }
            }
            // What was there and could still be run is still there unless a newer download replaced it.
            for (p, n) in &before.nodes {
                if matches!(n, world::Node::File(_)) && !after.nodes.contains_key(p) && !downloaded {
                    return fail("lost", format!("{p} vanished"));
                }
            }
        }
        if prop == "Z03" && matches!(source, "download" | "fail-download") {
            let want = (
                format!("https://dl/{}/{}", VERSIONS[c.version], asset_name(os, arch)),
                dir.clone(),
                if os == 2 { DownloadedFileType::Zip } else { DownloadedFileType::GzipTar },
            );
            let d: Vec<_> = h.downloads.iter().map(|d| (d.0.clone(), d.1.clone(), d.2)).collect();
            if d != vec![want.clone()] {
                return fail("wrong-asset", format!("expected {want:?}, downloaded {d:?}"));
            }
        }
        if got.is_ok() && matches!(source, "installed" | "download") {
            cached = Some(bin);
        }
    }
    LAST.with(|l| *l.borrow_mut() = format!("{:?} {cached:?}", world::with(|w| w.nodes.clone())));
    None
}

thread_local! {
    /// What the last history led to: the disk, and the binary found there before.
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Z04: initialization options and settings reach the server unchanged.
fn passed_on() {
    let check = Check::new("Z04", "exploration");
    let mut vals: Vec<Value> = vec![json!(null), json!(true), json!(0), json!(-1.5), json!(""), json!("\u{e9}\"\\")];
    for round in 0..check.pick(2, 2) {
        let base: Vec<Value> = vals.iter().take(if round == 0 { 6 } else { 40 }).cloned().collect();
        let mut new = vec![json!([]), json!({})];
        for a in &base {
            new.push(json!([a]));
            new.push(json!({"k": a}));
            for b in &base {
                new.push(json!([a, b]));
                new.push(json!({"logLevel": a, "x y": b}));
            }
        }
        vals.extend(new);
    }
    let mut opts: Vec<Option<Value>> = vec![None];
    opts.extend(vals.into_iter().map(Some));
    let m = opts.len() as u64;
    let others = [None, Some(json!({"other": 1})), Some(json!(null))];
    let id = LanguageServerId("jarl".into());
    let go = |i: u64, check: &Check| {
        let x = &opts[(i % m) as usize];
        for o in &others {
            for bin in [None, Some(json!({"path": "/x"}))] {
                for swap in [false, true] {
                    let (init, set) = if swap { (o, x) } else { (x, o) };
                    let mut s = serde_json::Map::new();
                    for (k, v) in [("binary", &bin), ("initialization_options", init), ("settings", set)] {
                        if let Some(v) = v {
                            s.insert(k.into(), v.clone());
                        }
                    }
                    let text = Value::Object(s).to_string();
                    set_host(1, 2, &Call { settings: 0, which: false, version: 0, fault: No, event: 0 });
                    HOST.with(|h| h.borrow_mut().as_mut().unwrap().lsp = Ok(text.clone()));
                    let mut ext = zed_mc::ext::__new_extension();
                    let a = catch(|| ext.language_server_initialization_options(&id, &Worktree));
                    let b = catch(|| ext.language_server_workspace_configuration(&id, &Worktree));
                    let want = |v: &Option<Value>| Ok(Ok(Some(v.clone().unwrap_or(Value::Null))));
                    if a != want(init) {
                        check.violation("initialization-options", format!("{text} gave {a:?}"), json!({"index": i}));
                    }
                    if b != want(set) {
                        check.violation("settings", format!("{text} gave {b:?}"), json!({"index": i}));
                    }
                    check.eval(2);
                    check.nontriv((init.is_some() || set.is_some()) as u64);
                }
            }
        }
    };
    if let Some(r) = check.replay() {
        go(r["index"].as_u64().unwrap(), &check);
        check.finish();
    }
    check.par(m, |i| go(i, &check));
    // No settings at all.
    set_host(1, 2, &Call { settings: 5, which: false, version: 0, fault: No, event: 0 });
    let mut ext = zed_mc::ext::__new_extension();
    for r in [
        catch(|| ext.language_server_initialization_options(&id, &Worktree)),
        catch(|| ext.language_server_workspace_configuration(&id, &Worktree)),
    ] {
        if !matches!(r, Ok(Ok(_))) {
            check.violation("no-settings", format!("unreadable settings gave {r:?}"), json!({"index": 0}));
        }
        check.eval(1);
    }
    check.rule("Every JSON value of nesting up to 2 over six scalars, as initialization options and as settings, each with the other absent, present and null, with and without binary settings.");
    check.sample(json!({"settings": opts[1]}));
    check.sample(json!({"settings": opts[opts.len() - 1]}));
    check.finish();
}

fn main() {
    let prop = std::env::args().nth(1).expect("property");
    if prop == "Z04" {
        return passed_on();
    }
    let check = Check::new(&prop, "model_checking");
    let seen = Mutex::new(BTreeMap::new());

    if prop == "Z03" {
        // The naming used here is the one the release process publishes.
        let p = concat!(env!("CARGO_MANIFEST_DIR"), "/../gen/repo/dist-workspace.toml");
        let text = std::fs::read_to_string(p).expect("dist-workspace.toml");
        let mut published = 0;
        for line in text.lines() {
            let t = line.trim().trim_end_matches(|c| c != '"').trim_matches('"');
            for (o, os) in OSES.iter().enumerate() {
                for (a, arch) in ARCHS.iter().enumerate() {
                    if t == format!("{}-{}", arch.1, os.1) {
                        published += 1;
                        check.sample(json!({"target": t, "asset": asset_name(o, a)}));
                    }
                }
            }
        }
        check.extra("published_targets", published);
        assert!(published >= 5, "release targets not found");
    }

    let settings: Vec<usize> = if prop == "Z01" { (0..SETTINGS.len()).collect() } else { vec![0, 5] };
    let mut calls = vec![];
    for &settings in &settings {
        for which in [false, true] {
            for version in 0..check.pick(2, 3) {
                for fault in FAULTS {
                    for event in 0..4 {
                        // Faults of later steps say nothing when an earlier source answers.
                        if (settings == 1 || settings == 2 || which) && fault != No && fault != Release {
                            continue;
                        }
                        if prop != "Z01" && which && (fault != No || event == 2) {
                            continue;
                        }
                        if settings > 2 && prop == "Z01" && (event == 3 || !matches!(fault, No | Release | Remove)) {
                            continue;
                        }
                        calls.push(Call { settings, which, version, fault, event });
                    }
                }
            }
        }
    }
    if let Some(r) = check.replay() {
        let hist: Vec<Call> = serde_json::from_value(r["history"].clone()).unwrap();
        let (o, a) = (r["os"].as_u64().unwrap() as usize, r["arch"].as_u64().unwrap() as usize);
        if let Some(v) = run(o, a, &hist, &prop, &seen) {
            check.violation(v.sig, v.what, r.clone());
        }
        check.finish();
    }
    let n = calls.len() as u64;
    let mut fixpoint = 0;
    for o in 0..3 {
        for a in 0..3 {
            // Breadth first over the distinct (disk, known binary) states, to a fixpoint.
            let mut known: std::collections::HashSet<String> = Default::default();
            let mut frontier: Vec<Vec<Call>> = vec![vec![]];
            let mut depth = 0;
            while !frontier.is_empty() && !check.stopped() {
                let next = Mutex::new(vec![]);
                let known_m = Mutex::new(&mut known);
                check.par(frontier.len() as u64 * n, |i| {
                    let mut hist = frontier[(i / n) as usize].clone();
                    hist.push(calls[(i % n) as usize]);
                    match run(o, a, &hist, &prop, &seen) {
                        Some(v) => check.violation(v.sig, v.what, json!({"os": o, "arch": a, "history": hist})),
                        None => {
                            if known_m.lock().unwrap().insert(LAST.with(|l| l.borrow().clone())) {
                                next.lock().unwrap().push(hist);
                            }
                        }
                    }
                });
                check.transitions.fetch_add(frontier.len() as u64 * n, SeqCst);
                check.validated.fetch_add(frontier.len() as u64 * n, SeqCst);
                frontier = next.into_inner().unwrap();
                depth += 1;
            }
            fixpoint = fixpoint.max(depth);
            check.states.fetch_add(known.len() as u64, SeqCst);
        }
    }
    check.extra("depth_of_fixpoint", fixpoint);
    // And every history up to a depth, without merging states.
    let mut full = 0u64;
    for o in 0..3 {
        for a in 0..3 {
            let d = if check.thorough() && (o, a) == (1, 2) { 3 } else { 2u32 };
            check.par(n.pow(d - 1), |i| {
                let mut hist = vec![calls[0]; d as usize];
                let mut x = i;
                for h in hist.iter_mut().take(d as usize - 1) {
                    *h = calls[(x % n) as usize];
                    x /= n;
                }
                for last in &calls {
                    hist[d as usize - 1] = *last;
                    if let Some(v) = run(o, a, &hist, &prop, &seen) {
                        check.violation(v.sig, v.what, json!({"os": o, "arch": a, "history": hist}));
                    }
                }
            });
            full += n.pow(d);
        }
    }
    // Many leftovers, before, at and after each request.
    for o in 0..3 {
        for a in 0..3 {
            check.par(n, |i| {
                for version in 0..check.pick(2, 3) {
                    for fault in [No, Remove, ReadDir] {
                        let many = Call { settings: 0, which: false, version, fault, event: 4 };
                        for hist in [vec![many, calls[i as usize]], vec![calls[i as usize], many]] {
                            if let Some(v) = run(o, a, &hist, &prop, &seen) {
                                check.violation(v.sig, v.what, json!({"os": o, "arch": a, "history": hist}));
                            }
                        }
                    }
                }
            });
            full += n * 2 * 3 * check.pick(2, 3) as u64;
        }
    }
    check.transitions.fetch_add(full, SeqCst);
    check.validated.fetch_add(full, SeqCst);
    check.extra("unmerged_histories", full);
    check.rule(
        "Start requests from every reachable (disk, known binary) state, to a fixpoint, and every history of 2 (thorough: 3) \
         requests without merging states; per request every combination of the user's settings, a binary on the PATH, \
         the published version, one host fault (release lookup, asset, download, partial download, directory listing, its \
         entries, removal) and a change of the disk before it; per platform. states = distinct (disk, known binary) states, \
         transitions = requests to the real extension judged against the reference resolution.",
    );
    check.extra("request_environments", n);
    for c in calls.iter().step_by((calls.len() / 6).max(1)) {
        check.sample(serde_json::to_value(c).unwrap());
    }
    check.assume("The file system and the host are in memory; one fault per request.");
    for (k, v) in seen.into_inner().unwrap() {
        check.outcome(&k, v);
    }
    check.finish();
}
