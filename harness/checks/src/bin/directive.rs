//! S01 S02: which comments are suppression directives, and what they say.

#[allow(dead_code)]
use jarl_core::directive;
#[allow(dead_code)]
use jarl_core::rule_set;

use directive::*;
use mcx::*;
use rule_set::Rule;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Next,
    File,
    Start,
    End,
    Chunk,
}

#[derive(Clone, PartialEq, Debug)]
enum Want {
    NotADirective,
    Valid(Kind, String),
    Blanket,
    NoReason,
    BadRule,
    /// Not documented (e.g. `# jarl-ignore-file` without any rule).
    Unspecified,
}

fn known(name: &str) -> bool {
    static NAMES: std::sync::LazyLock<HashMap<&'static str, ()>> =
        std::sync::LazyLock::new(|| Rule::all().iter().map(|r| (r.name(), ())).collect());
    NAMES.contains_key(name)
}

/// `<rule>: <reason>`
fn model_rule_reason(arg: &str, kind: Kind) -> Want {
    let (name, reason) = match arg.split_once(':') {
        Some((n, r)) => (n.trim(), r.trim()),
        None => (arg.trim(), ""),
    };
    if name.is_empty() {
        return Want::Unspecified;
    }
    if !known(name) {
        return Want::BadRule;
    }
    if reason.is_empty() && kind != Kind::End {
        return Want::NoReason;
    }
    Want::Valid(kind, name.to_string())
}

/// The documented grammar, on a comment's text.
fn model_comment(text: &str) -> Want {
    let t = text.trim_start();
    let (body, pipe) = if let Some(b) = t.strip_prefix("#| ") {
        (b, true)
    } else if let Some(b) = t.strip_prefix("# ") {
        (b, false)
    } else if let Some(b) = t.strip_prefix("#") {
        (b, false)
    } else {
        return Want::NotADirective;
    };
    let Some(tail) = body.strip_prefix("jarl-ignore") else { return Want::NotADirective };
    // Directive word: up to the first blank or colon.
    let cut = tail.find([' ', ':']).unwrap_or(tail.len());
    let (word, arg) = tail.split_at(cut);
    let kind = match word {
        "" => Kind::Next,
        "-file" => Kind::File,
        "-start" => Kind::Start,
        "-end" => Kind::End,
        "-chunk" => Kind::Chunk,
        _ => {
            // A blank other than a space right after the word is not documented.
            let w: String = word.chars().take_while(|c| !c.is_whitespace()).collect();
            return if w != word && ["", "-file", "-start", "-end", "-chunk"].contains(&w.as_str()) {
                Want::Unspecified
            } else {
                Want::NotADirective
            };
        }
    };
    if pipe && kind != Kind::Chunk {
        return Want::NotADirective;
    }
    match arg.strip_prefix(' ') {
        None => match kind {
            // "# jarl-ignore", "# jarl-ignore: ..."
            Kind::Next | Kind::Chunk => Want::Blanket,
            _ => Want::Unspecified,
        },
        Some(a) if a.trim().is_empty() => Want::Unspecified,
        Some(a) => match kind {
            Kind::Next | Kind::Chunk if a.starts_with(':') => Want::Blanket,
            _ => model_rule_reason(a, kind),
        },
    }
}

fn said(r: Option<DirectiveParseResult>) -> Want {
    match r {
        None => Want::NotADirective,
        Some(DirectiveParseResult::BlanketSuppression) => Want::Blanket,
        Some(DirectiveParseResult::MissingExplanation) => Want::NoReason,
        Some(DirectiveParseResult::InvalidRuleName) => Want::BadRule,
        Some(DirectiveParseResult::Valid(d)) => match d {
            LintDirective::Ignore(r) => Want::Valid(Kind::Next, r.name().into()),
            LintDirective::IgnoreFile(r) => Want::Valid(Kind::File, r.name().into()),
            LintDirective::IgnoreStart(r) => Want::Valid(Kind::Start, r.name().into()),
            LintDirective::IgnoreEnd(r) => Want::Valid(Kind::End, r.name().into()),
            LintDirective::IgnoreChunk(r) => Want::Valid(Kind::Chunk, r.name().into()),
        },
    }
}

struct Tally {
    n: AtomicU64,
    directives: AtomicU64,
    by: [AtomicU64; 6],
}

fn count(t: &Tally, w: &Want) {
    t.n.fetch_add(1, Relaxed);
    let k = match w {
        Want::NotADirective => 0,
        Want::Valid(..) => 1,
        Want::Blanket => 2,
        Want::NoReason => 3,
        Want::BadRule => 4,
        Want::Unspecified => 5,
    };
    t.by[k].fetch_add(1, Relaxed);
    if k != 0 {
        t.directives.fetch_add(1, Relaxed);
    }
}

fn judge_comment(ck: &Check, text: &str, t: &Tally) {
    let want = model_comment(text);
    count(t, &want);
    match catch(|| said(parse_comment_directive(text))) {
        Err(p) => ck.violation("panic", format!("{text:?}: {p}"), json!({ "comment": text })),
        Ok(got) => {
            if want == Want::Unspecified {
                // Whatever it is, it must not suppress anything.
                if let Want::Valid(k, r) = got {
                    ck.violation("suppresses", format!("{text:?} is taken as a valid {k:?} directive for {r}"), json!({ "comment": text }));
                }
            } else if got != want {
                ck.violation("misread", format!("{text:?}: got {got:?}, expected {want:?}"), json!({ "comment": text }));
            }
        }
    }
}

// S02: the YAML array form of chunk options.

fn model_header(text: &str) -> bool {
    text.trim() == "#| jarl-ignore-chunk:"
}

/// `#| <blanks> - <blanks> rule: reason`
fn model_item(text: &str) -> Want {
    let t = text.trim();
    let Some(r) = t.strip_prefix("#|") else { return Want::NotADirective };
    let Some(r) = r.trim_start().strip_prefix('-') else { return Want::NotADirective };
    if !r.starts_with(char::is_whitespace) || r.trim().is_empty() {
        return Want::NotADirective;
    }
    match model_rule_reason(r, Kind::Chunk) {
        Want::Unspecified => Want::NotADirective,
        w => w,
    }
}

fn judge_item(ck: &Check, text: &str, t: &Tally) {
    let want = model_item(text);
    count(t, &want);
    match catch(|| (said(parse_quarto_chunk_array_item(text)), is_quarto_chunk_array_header(text))) {
        Err(p) => ck.violation("panic", format!("{text:?}: {p}"), json!({ "comment": text })),
        Ok((got, header)) => {
            if got != want {
                ck.violation("item-misread", format!("{text:?}: got {got:?}, expected {want:?}"), json!({ "comment": text }));
            }
            if header != model_header(text) {
                ck.violation("header-misread", format!("{text:?}: header = {header}"), json!({ "comment": text }));
            }
            if header {
                t.by[1].fetch_add(1, Relaxed);
            }
        }
    }
}

fn main() {
    let prop = std::env::args().nth(1).expect("property");
    let ck = Check::new(&prop, "exploration");
    let t = Tally { n: AtomicU64::new(0), directives: AtomicU64::new(0), by: Default::default() };
    let judge: fn(&Check, &str, &Tally) = if prop == "S01" { judge_comment } else { judge_item };
    if let Some(c) = ck.replay() {
        judge(&ck, c["comment"].as_str().unwrap(), &t);
        ck.finish();
    }
    let rules: Vec<&str> = Rule::all().iter().map(|r| r.name()).collect();

    if prop == "S01" {
        // 1. Full product of the parts of a directive.
        let lead = ["", " ", "\t ", "\u{a0}"];
        let mark = ["#", "# ", "#| ", "#|", "##", "#  ", "#' ", "", "#|  ", "# | "];
        let word = ["jarl-ignore", "jarl-ignor", "Jarl-ignore", "jarl-ignorefoo", "jarl ignore", "nolint", "jarl-ignore-ignore"];
        let kind = ["", "-file", "-start", "-end", "-chunk", "-foo", "-files", "-File", "-start-end"];
        let sep = ["", " ", "  ", ":", " :", "\t", ": "];
        let rule = ["", "any_is_na", "bogus", "any_is_na ", "ANY_IS_NA", "any_is_n", "any_is_na,assignment", "PERF", "any_is_nab", "sort"];
        let end = ["", ":", ": ", ": why", ":why", " : why", ": a: b", ":: x", " why", ":\t", ": é🌍", ": any_is_na: x", ":\u{a0}"];
        let trail = ["", " ", "\r", "  \t"];
        let p = Product::new(&[lead.len(), mark.len(), word.len(), kind.len(), sep.len(), rule.len(), end.len(), trail.len()]);
        ck.par(p.count(), |i| {
            let mut x = vec![];
            p.get(i, &mut x);
            // Wrong words only matter with the simplest surroundings.
            if x[2] >= 1 && (x[0] > 0 || x[7] > 0) {
                return;
            }
            let s = [lead[x[0]], mark[x[1]], word[x[2]], kind[x[3]], sep[x[4]], rule[x[5]], end[x[6]], trail[x[7]]].concat();
            judge_comment(&ck, &s, &t);
        });
        // 2. Every rule in every directive form.
        for r in &rules {
            for k in ["", "-file", "-start", "-end", "-chunk"] {
                for m in ["#", "# ", "#| "] {
                    for e in ["", ":", ": why", " : why", " why", ":  "] {
                        judge_comment(&ck, &format!("{m}jarl-ignore{k} {r}{e}"), &t);
                        judge_comment(&ck, &format!("{m}jarl-ignore{k} {}{e}", r.to_uppercase()), &t);
                        judge_comment(&ck, &format!("{m}jarl-ignore{k} {r}_{e}"), &t);
                        judge_comment(&ck, &format!("{m}jarl-ignore{k} {}{e}", &r[..r.len() - 1]), &t);
                    }
                }
            }
        }
        // 3. Every sequence of fragments.
        let frag = ["#", " ", "jarl-ignore", ":", "any_is_na", "-end", "|", "-chunk", "x", "-file", "\t", "-start", "-"];
        let w = Words::new(frag.len(), ck.pick(6, 7));
        ck.par(w.count(), |i| {
            let mut ix = vec![];
            w.get(i, &mut ix);
            let s: String = ix.iter().map(|k| frag[*k]).collect();
            judge_comment(&ck, &s, &t);
        });
        // 4. Every short character string after the directive word.
        let ch = [" ", ":", "-", "s", "e", "q", "é", "\t", "2", "\n"];
        let w = Words::new(ch.len(), ck.pick(6, 7));
        ck.par(w.count(), |i| {
            let mut ix = vec![];
            w.get(i, &mut ix);
            let s: String = ix.iter().map(|k| ch[*k]).collect();
            judge_comment(&ck, &format!("# jarl-ignore{s}"), &t);
        });
    } else {
        let frag = ["#|", " ", "-", "any_is_na", ":", "why", "  ", "bogus", "jarl-ignore-chunk", "\t", "#", "sort", "é"];
        let w = Words::new(frag.len(), ck.pick(6, 7));
        ck.par(w.count(), |i| {
            let mut ix = vec![];
            w.get(i, &mut ix);
            let s: String = ix.iter().map(|k| frag[*k]).collect();
            judge_item(&ck, &s, &t);
        });
        for r in &rules {
            for pre in ["#| - ", "#|   - ", "#|- ", "  #|\t-\t", "#|   -", "#   - ", "- ", "#| * ", "#| -- "] {
                for e in ["", ":", ": why", " : why", ": a: b", ":   ", ":\u{a0}x", " why"] {
                    for tr in ["", " ", "\r"] {
                        judge_item(&ck, &format!("{pre}{r}{e}{tr}"), &t);
                        judge_item(&ck, &format!("{pre}{}{e}{tr}", &r[1..]), &t);
                        judge_item(&ck, &format!("{pre}{}{e}{tr}", r.to_uppercase()), &t);
                    }
                }
            }
        }
        for s in ["#| jarl-ignore-chunk:", " #| jarl-ignore-chunk: ", "#| jarl-ignore-chunk", "#| jarl-ignore-chunk: x", "#|jarl-ignore-chunk:", "# jarl-ignore-chunk:", "#| jarl-ignore-chunk :", "#| jarl-ignore-chunks:"] {
            judge_item(&ck, s, &t);
        }
    }
    // Each part at every length up to 300, and at large ones.
    let lengths: Vec<usize> = (0..300).chain([512, 1000, 1023, 1024, 4096, 65_535, 65_536, 100_000]).collect();
    ck.par(lengths.len() as u64, |i| {
        let n = lengths[i as usize];
        let head = if prop == "S01" { "# jarl-ignore" } else { "#| -" };
        for k in if prop == "S01" { &["", "-file", "-start", "-end", "-chunk"][..] } else { &[""] } {
            for fill in ["x", " ", "é", ":", "-", "🌍", "a b ", "\t", "#"] {
                let f = fill.repeat(n);
                for s in [
                    format!("{head}{k} any_is_na: {f}"),
                    format!("{head}{k} any_is_na: {f} why"),
                    format!("{head}{k} any_is_na{f}: why"),
                    format!("{head}{k} {f}any_is_na: why"),
                    format!("{head}{k} any_is_na:{f}why"),
                    format!("{head}{k}{f} any_is_na: why"),
                    format!("{f}{head}{k} any_is_na: why"),
                    format!("{head}{k} any_is_na: why{f}"),
                ] {
                    judge(&ck, &s, &t);
                }
            }
        }
    });
    ck.eval(t.n.load(Relaxed));
    ck.nontriv(t.directives.load(Relaxed));
    for (k, n) in ["not a directive", "valid", "blanket", "no reason", "unknown rule", "unspecified"].iter().zip(&t.by) {
        ck.outcome(k, n.load(Relaxed));
    }
    ck.rule("full product of the parts of a directive, every rule in every form, every sequence of fragments up to the bound, each part at every length up to 300 and at large ones; non-trivial = the text names the directive");
    ck.sample(json!("# jarl-ignore-file any_is_na: because"));
    ck.sample(json!("#| jarl-ignore any_is_na: why"));
    ck.finish()
}
