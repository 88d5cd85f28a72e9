//! X01 X02 X03: exit status, logging, positions and parse errors.

use jarl_core::error::ParseError;
use jarl_core::location::Location;
use mcx::*;
use std::process::Command;

fn child() -> ! {
    let args: Vec<String> = std::env::args().collect();
    match args[2].as_str() {
        "log" => {
            let level: jarl::logging::LogLevel = args[3].parse().expect("level");
            jarl::door::init_logging(level);
            jarl::door::emit();
            for (t, at) in [("jarl", 0), ("jarl::x", 1), ("jarl_core", 2), ("jarl_core::config", 3), ("other", 4), ("air_fs", 5), ("ignore::walk", 6)] {
                macro_rules! all { ($t:literal) => {{
                    tracing::error!(target: $t, "T{at}E"); tracing::warn!(target: $t, "T{at}W"); tracing::info!(target: $t, "T{at}I");
                    tracing::debug!(target: $t, "T{at}D"); tracing::trace!(target: $t, "T{at}T"); }} }
                match t {
                    "jarl" => all!("jarl"),
                    "jarl::x" => all!("jarl::x"),
                    "jarl_core" => all!("jarl_core"),
                    "jarl_core::config" => all!("jarl_core::config"),
                    "other" => all!("other"),
                    "air_fs" => all!("air_fs"),
                    _ => all!("ignore::walk"),
                }
            }
            std::process::exit(0)
        }
        _ => unreachable!(),
    }
}

fn status() {
    // Run by a child: the process's own exit status is what a shell sees.
    let check = Check::new("X01", "exploration");
    let me = std::env::current_exe().unwrap();
    use std::collections::BTreeSet;
    let mut seen = BTreeSet::new();
    for (name, want) in [("success", 0), ("failure", 1), ("error", 255)] {
        let c = Command::new(&me).env("MC_STATUS", name).output().unwrap().status.code();
        check.eval(1);
        check.nontriv(1);
        check.sample(json!({"outcome": name, "exit": c}));
        seen.insert(c);
        if c != Some(want) {
            check.violation(&format!("status:{name}"), format!("{name} exits with {c:?}, not {want}"), json!({"outcome": name}));
        }
    }
    if seen.len() != 3 {
        check.violation("status:distinct", "two outcomes share an exit status".into(), json!({}));
    }
    check.rule("Each outcome of a run, as the exit status of a real process.");
    check.finish();
}

fn logging() {
    let check = Check::new("X02", "exploration");
    let me = std::env::current_exe().unwrap();
    let names = ["error", "warn", "info", "debug", "trace"];
    // Exactly the documented names are levels.
    let letters = ["error", "warn", "info", "debug", "trace", "Error", "WARN", " ", "", "e", "s", "off", "0", "warning", "\u{e9}"];
    let words = Words::new(letters.len(), check.pick(2, 3));
    for i in 0..words.count() {
        let mut w = vec![];
        words.get(i, &mut w);
        let s: String = w.iter().map(|l| letters[*l]).collect();
        let r = catch(|| s.parse::<jarl::logging::LogLevel>());
        check.eval(1);
        let ok = names.contains(&s.as_str());
        check.nontriv(ok as u64);
        match r {
            Ok(Ok(l)) if ok && l.to_string().to_lowercase() == s => {}
            Ok(Err(_)) if !ok => {}
            r => check.violation("name", format!("{s:?} gave {r:?}"), json!({"name": s})),
        }
    }
    let levels: Vec<jarl::logging::LogLevel> = names.iter().map(|n| n.parse().unwrap()).collect();
    if !levels.windows(2).all(|w| w[0] < w[1]) {
        check.violation("order", "levels are not ordered from quiet to verbose".into(), json!({}));
    }
    if jarl::logging::LogLevel::default() != levels[1] {
        check.violation("default", "the default level is not warn".into(), json!({}));
    }
    // Every level x every origin of a message.
    for (n, name) in names.iter().enumerate() {
        let o = Command::new(&me).args(["child", "log", name]).output().unwrap();
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        let out = String::from_utf8_lossy(&o.stdout).into_owned();
        if !o.status.success() {
            check.violation("crash", format!("level {name}: {err}"), json!({"level": name}));
            continue;
        }
        if !out.is_empty() {
            check.violation("stdout", format!("level {name}: log messages on standard output: {out}"), json!({"level": name}));
        }
        for t in 0..7 {
            for (l, c) in ["E", "W", "I", "D", "T"].iter().enumerate() {
                let want = t < 4 && l <= n;
                let line = err.lines().find(|x| x.contains(&format!("T{t}{c}")));
                check.eval(1);
                check.nontriv(want as u64);
                if line.is_some() != want {
                    check.violation("filter", format!("level {name}: message {c} of origin {t} {}", if want { "is missing" } else { "is shown" }), json!({"level": name}));
                }
                if let Some(x) = line {
                    let tag = ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"][l];
                    if !x.contains(tag) {
                        check.violation("tag", format!("{x:?} does not name its level"), json!({"level": name}));
                    }
                }
            }
        }
        let own = err.lines().filter(|l| l.contains("from-crate")).count();
        check.eval(1);
        if own != n + 1 {
            check.violation("own", format!("level {name}: {own} of the crate's own messages shown, not {}", n + 1), json!({"level": name}));
        }
    }
    check.rule("Every concatenation of up to 2 (thorough: 3) of 15 name fragments as a level; every level x every message level x seven message origins, in a real process.");
    check.sample(json!({"level": "info"}));
    check.finish();
}

fn locations() {
    let check = Check::new("X03", "exploration");
    let nums = [0usize, 1, 2, 9, 10, 1000, usize::MAX];
    for &a in &nums {
        for &b in &nums {
            let l = Location::new(a, b);
            check.eval(1);
            check.nontriv(1);
            if (l.row(), l.column()) != (a, b) {
                check.violation("fields", format!("({a},{b}) reads back as ({},{})", l.row(), l.column()), json!({"row": a, "column": b}));
            }
            struct D(Location, &'static str);
            impl std::fmt::Display for D {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    self.0.fmt_with(f, &self.1)
                }
            }
            for m in ["", "message", "m\u{e9}\n%s {}"] {
                let s = D(l, m).to_string();
                check.eval(1);
                if s != format!("{m} at line {a} column {b}") {
                    check.violation("display", format!("({a},{b}) {m:?} prints {s:?}"), json!({"row": a, "column": b}));
                }
            }
            let j = serde_json::to_value(l).unwrap();
            let back: Location = serde_json::from_value(j.clone()).unwrap();
            if back != l || j != json!({"row": a, "column": b}) {
                check.violation("json", format!("({a},{b}) serializes as {j}"), json!({"row": a, "column": b}));
            }
            for &c in &nums {
                for &d in &nums {
                    let m = Location::new(c, d);
                    check.eval(1);
                    if l.cmp(&m) != (a, b).cmp(&(c, d)) || (l == m) != ((a, b) == (c, d)) {
                        check.violation("order", format!("({a},{b}) against ({c},{d}): {:?}", l.cmp(&m)), json!({"row": a, "column": b}));
                    }
                }
            }
        }
    }
    for p in ["a.R", "dir with space/\u{e9}.R", "", "/abs/x.Rmd", "a\nb.R"] {
        let s = ParseError { filename: p.into() }.to_string();
        check.eval(1);
        if !s.contains(p) || s != format!("Failed to parse {p} due to syntax errors.") {
            check.violation("parse-error", format!("{p:?}: {s:?}"), json!({"path": p}));
        }
    }
    check.rule("Every pair of rows and columns from 7 values, compared with every other pair, printed with 3 messages, and through JSON; 5 file names.");
    check.sample(json!({"row": 1, "column": 10}));
    check.finish();
}

fn main() -> std::process::ExitCode {
    if let Ok(s) = std::env::var("MC_STATUS") {
        use jarl::status::ExitStatus;
        return match s.as_str() {
            "success" => ExitStatus::Success.into(),
            "failure" => ExitStatus::Failure.into(),
            _ => ExitStatus::Error.into(),
        };
    }
    match std::env::args().nth(1).as_deref() {
        Some("child") => child(),
        Some("X01") => status(),
        Some("X02") => logging(),
        _ => locations(),
    }
    std::process::ExitCode::SUCCESS
}
