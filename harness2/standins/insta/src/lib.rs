//! Stand-in for insta: `assert_snapshot!` with inline and file snapshots, compared
//! after the same normalisation; nothing is ever written.
use std::path::Path;

pub fn normalize(s: &str) -> String {
    s.replace("\r\n", "\n").trim_end().to_string()
}

pub fn normalize_inline(s: &str) -> String {
    let s = s.replace("\r\n", "\n");
    let body = s.strip_prefix('\n').unwrap_or(&s);
    let indent = body
        .split('\n')
        .filter(|l| !l.trim().is_empty())
        .map(|l| l.len() - l.trim_start().len())
        .min()
        .unwrap_or(0);
    let multi = s.trim().contains('\n') || s.starts_with('\n');
    let out: Vec<&str> = if multi {
        body.split('\n').map(|l| if l.len() >= indent && l.is_char_boundary(indent) && l[..indent].trim().is_empty() { &l[indent..] } else { l.trim_start() }).collect()
    } else {
        s.split('\n').collect()
    };
    let out = out.iter().map(|l| *l).collect::<Vec<_>>().join("\n");
    out.trim_end().to_string()
}

pub fn check_inline(got: &str, want: &str, at: &str) {
    let g = normalize(got);
    let w = normalize_inline(want);
    // insta compares with leading newlines trimmed too
    let (g2, w2) = (strip(&g), strip(&w));
    if g2 != w2 {
        panic!("snapshot differs at {at}\n--- want ---\n{w2}\n--- got ---\n{g2}\n");
    }
}

fn strip(s: &str) -> String {
    let t: Vec<&str> = s.trim_matches('\n').split('\n').map(|l| l.trim_end()).collect();
    let ind = t.iter().filter(|l| !l.is_empty()).map(|l| l.len() - l.trim_start().len()).min().unwrap_or(0);
    t.iter().map(|l| l.get(ind..).unwrap_or("")).collect::<Vec<_>>().join("\n")
}

pub fn check_file(got: &str, name: &str, module: &str, file: &str, at: &str) {
    let module = module.replace("::", "__");
    let root = std::env::var("INSTA_ROOT").expect("INSTA_ROOT");
    let dir = Path::new(&root).join(file);
    let p = dir.parent().unwrap().join("snapshots").join(format!("{module}__{name}.snap"));
    let text = std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{at}: no snapshot {}: {e}", p.display()));
    let want = text.splitn(3, "---\n").nth(2).unwrap_or("");
    if normalize(got).trim_start_matches('\n') != normalize(want).trim_start_matches('\n') {
        panic!("snapshot {name} differs at {at}\n--- want ---\n{want}\n--- got ---\n{got}\n");
    }
}

#[macro_export]
macro_rules! assert_snapshot {
    ($value:expr, @$want:literal $(,)?) => {
        $crate::check_inline(&$value.to_string(), $want, concat!(file!(), ":", line!()))
    };
    ($name:expr, $value:expr $(,)?) => {
        $crate::check_file(&$value.to_string(), &$name.to_string(), module_path!(), file!(), concat!(file!(), ":", line!()))
    };
}
