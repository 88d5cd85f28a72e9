//! Automatic fixes: A01 splicing, A02 one node for one node, A03 fixpoint,
//! A04 permission, A05 comments, A07 operands.
use checks2::progs::*;
use checks2::*;
use jarl_core::diagnostic::{Diagnostic, Fix, ViolationData};
use jarl_core::fix::apply_fixes;
use mcx::{json, Check, Words};
use std::sync::atomic::Ordering::Relaxed;

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    match prop.as_str() {
        "A01" => a01(),
        "A02" => a02(),
        "A03" => a03(),
        "A04" => a04(),
        "A05" => a05(),
        "A07" => a07(),
        _ => {
            eprintln!("fixes A01..A07");
            std::process::exit(2)
        }
    }
}

fn short(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

// ---------------------------------------------------------------- A01
#[derive(Clone, Copy)]
struct F {
    start: usize,
    end: usize,
    content: &'static str,
}
fn diag(f: &F) -> Diagnostic {
    let mut d = Diagnostic::empty();
    d.message = ViolationData::new("r".into(), "b".into(), None);
    d.range = biome_rowan::TextRange::new((f.start as u32).into(), (f.end as u32).into());
    d.fix = Fix { content: f.content.into(), start: f.start, end: f.end, to_skip: false };
    d
}
/// Splices a set of pairwise disjoint replacements given in ascending order.
fn splice(text: &str, fs: &[F]) -> Option<String> {
    let (mut out, mut last) = (String::new(), 0);
    for f in fs {
        if f.start < last {
            return None;
        }
        out.push_str(&text[last..f.start]);
        out.push_str(f.content);
        last = f.end;
    }
    out.push_str(&text[last..]);
    Some(out)
}
fn clash(a: &F, b: &F) -> bool {
    a.start < b.end && b.start < a.end
}
fn touching(a: &F, b: &F) -> bool {
    // an insertion at the border of, or at the same place as, another fix
    (a.start == a.end || b.start == b.end) && a.start <= b.end && b.start <= a.end
}
fn empty(f: &F) -> bool {
    f.content.is_empty() && f.start == f.end
}
fn a01_judge(text: &str, fs: &[F]) -> Result<(), String> {
    let ds: Vec<Diagnostic> = fs.iter().map(diag).collect();
    let (skipped, got) = mcx::catch(|| apply_fixes(&ds, text)).map_err(|p| format!("panic: {p}"))?;
    // Some set of disjoint fixes, none of the others disjoint from all of it,
    // explains the result, and the flag says whether something was left out.
    let n = fs.len();
    let mut near = String::from("no set of non-overlapping fixes gives this text");
    for set in 0..1usize << n {
        let chosen: Vec<F> = (0..n).filter(|i| set >> i & 1 == 1).map(|i| fs[i]).collect();
        if chosen.iter().enumerate().any(|(i, a)| chosen[..i].iter().any(|b| clash(a, b))) {
            continue;
        }
        // (equal positions: in the order given)
        let mut sorted = chosen.clone();
        sorted.sort_by_key(|f| (f.start, f.end));
        if splice(text, &sorted).as_ref() != Some(&got) && splice(text, &chosen_in_order(&chosen)).as_ref() != Some(&got) {
            continue;
        }
        let left: Vec<F> = (0..n).filter(|i| set >> i & 1 == 0).map(|i| fs[i]).filter(|f| !empty(f)).collect();
        let needless = left.iter().find(|f| !chosen.iter().any(|c| clash(c, f) || touching(c, f)));
        if let Some(f) = needless {
            near = format!("the fix {}..{} was left out although it overlaps no applied one", f.start, f.end);
            continue;
        }
        if !left.is_empty() && !skipped {
            near = "a fix was left out but not announced".into();
            continue;
        }
        if left.is_empty() && skipped && fs.iter().all(|f| !empty(f)) {
            near = "nothing was left out but a left-out fix was announced".into();
            continue;
        }
        return Ok(());
    }
    Err(format!("{near}; text {got:?}, flag {skipped}"))
}
fn chosen_in_order(c: &[F]) -> Vec<F> {
    let mut v = c.to_vec();
    v.sort_by_key(|f| f.start);
    v
}
fn a01() {
    let c = Check::new("A01", "exploration");
    c.rule("apply_fixes on every text over {a, e-acute, emoji, newline, CRLF} up to the length bound and every ascending list of fixes (all byte ranges on character boundaries, four contents, empty placeholder fixes included); judged against every way of splicing a maximal set of non-overlapping fixes");
    c.assume("fixes come in ascending order of their start, as the linter sorts them; fixes out of order may be left for the next round");
    let units = ["a", "\u{e9}", "\u{1F600}", "\n", "\r\n"];
    let contents = ["", "x", "\u{e9}\u{e9}", "long\u{1F600}er"];
    let words = Words::new(units.len(), c.pick(3, 4));
    if let Some(r) = c.replay() {
        let text = r["text"].as_str().unwrap().to_string();
        let fs: Vec<F> = r["fixes"].as_array().unwrap().iter().map(|f| F { start: f[0].as_u64().unwrap() as usize, end: f[1].as_u64().unwrap() as usize, content: contents[f[2].as_u64().unwrap() as usize] }).collect();
        if let Err(e) = a01_judge(&text, &fs) {
            c.violation("splice", e, r.clone());
        }
        c.finish();
    }
    let depth = c.pick(3, 3);
    c.par(words.count(), |i| {
        let mut w = vec![];
        words.get(i, &mut w);
        let text: String = w.iter().map(|k| units[*k]).collect();
        let cuts: Vec<usize> = (0..=text.len()).filter(|b| text.is_char_boundary(*b)).collect();
        let mut all: Vec<(F, usize)> = vec![];
        for s in &cuts {
            for e in cuts.iter().filter(|e| *e >= s) {
                for (k, content) in contents.iter().enumerate() {
                    if k == 0 && s == e && *s != 0 {
                        continue;
                    }
                    all.push((F { start: *s, end: *e, content }, k));
                }
            }
        }
        // every ascending list up to the depth
        let mut stack: Vec<Vec<usize>> = vec![vec![]];
        while let Some(l) = stack.pop() {
            let fs: Vec<F> = l.iter().map(|k| all[*k].0).collect();
            c.eval(1);
            if fs.len() > 1 {
                c.nontriv(1);
            }
            if let Err(e) = a01_judge(&text, &fs) {
                let rep = json!({"text": text, "fixes": l.iter().map(|k| json!([all[*k].0.start, all[*k].0.end, all[*k].1])).collect::<Vec<_>>()});
                c.violation("splice", format!("{text:?} with {:?}: {e}", fs.iter().map(|f| (f.start, f.end, f.content)).collect::<Vec<_>>()), rep);
                return;
            }
            if l.len() < depth {
                for k in 0..all.len() {
                    let f = &all[k].0;
                    // empty placeholders (0..0) can stand anywhere
                    let asc = empty(f) || fs.iter().rev().find(|p| !empty(p)).is_none_or(|p| p.start <= f.start);
                    if asc {
                        let mut m = l.clone();
                        m.push(k);
                        stack.push(m);
                    }
                }
            }
        }
    });
    c.sample(json!({"text": "a\u{e9}\n", "fixes": [[0, 1, "x"], [1, 3, "\u{e9}\u{e9}"]]}));
    c.finish()
}

// ---------------------------------------------------------------- programs
struct Space {
    templates: Vec<Template>,
    contexts: Vec<&'static str>,
}
impl Space {
    fn new() -> Space {
        Space { templates: corpus(), contexts: TIGHT.iter().chain(LOOSE).copied().collect() }
    }
    fn len(&self) -> u64 {
        (self.templates.len() * self.contexts.len()) as u64
    }
    fn get(&self, i: u64) -> Option<(&Template, &'static str, String)> {
        let t = &self.templates[i as usize / self.contexts.len()];
        let ctx = self.contexts[i as usize % self.contexts.len()];
        stands(ctx, &t.text).map(|(full, _, _)| (t, ctx, full))
    }
}
fn apply_one(text: &str, f: &Fix) -> Option<String> {
    (f.start <= f.end && text.is_char_boundary(f.start) && text.is_char_boundary(f.end) && f.end <= text.len())
        .then(|| format!("{}{}{}", &text[..f.start], f.content, &text[f.end..]))
}
fn placeholder(f: &Fix) -> bool {
    f.content.is_empty() && f.start == f.end
}

// ---------------------------------------------------------------- A02
fn a02_judge(l: &Linter, full: &str) -> Result<u64, (String, String)> {
    let ds = match l.lint(full) {
        Ok(d) => d,
        Err(_) => return Ok(0), // L03 judges that
    };
    let mut n = 0;
    for d in &ds {
        if placeholder(&d.fix) {
            continue;
        }
        n += 1;
        let rule = d.message.name.clone();
        let Some(fixed) = apply_one(full, &d.fix) else {
            return Err((rule, format!("the fix has the range {}..{}, which is no range of the text", d.fix.start, d.fix.end)));
        };
        let say = |w: &str| Err((rule.clone(), format!("{w}: {full:?} becomes {fixed:?}")));
        if !parses(&fixed) {
            return say("the fixed code has a syntax error");
        }
        if fixed.contains('=') && equal_as_condition(&fixed) && !equal_as_condition(full) {
            return say("the fixed code has = as a condition, which R refuses");
        }
        let before = shape_around(full, d.fix.start, d.fix.end);
        let after = shape_around(&fixed, d.fix.start, d.fix.start + d.fix.content.len());
        match (before, after) {
            (None, _) => return say("the replaced text is not an expression of its own"),
            (_, None) => return say("the replacement is torn apart by the code around it"),
            (Some(b), Some(a)) if a != b => return say("the code around the replacement changes its structure"),
            _ => {}
        }
    }
    Ok(n)
}
fn a02() {
    let c = Check::new("A02", "exploration");
    c.rule("every expression of the corpus (taken from the linter's rule tests) in every surrounding (operators of every binding strength on both sides, calls, arguments, indexing, control flow, blocks, comments, non-ASCII text before it), all rules and all fixes on, with `<-` and with `=` as preferred operator; each proposed fix is applied on its own and the syntax trees before and after are compared outside the replaced expression");
    let s = Space::new();
    let l = Linter::new(&Opts::all().unsafely(), "R");
    // with `=` as the preferred assignment operator
    let eq = Linter::new(&Opts { select: "assignment".into(), ..Opts::all() }.unsafely().equals(), "R");
    let arrow = |t: &str| t.contains("<-") || t.contains("->");
    if let Some(r) = c.replay() {
        if let Err((rule, e)) = a02_judge(if r["eq"] == true { &eq } else { &l }, r["text"].as_str().unwrap()) {
            c.violation(&rule, e, r.clone());
        }
        c.finish();
    }
    c.par(s.len(), |i| {
        let Some((_, _, full)) = s.get(i) else { return };
        c.eval(1);
        if arrow(&full) {
            c.eval(1);
            match a02_judge(&eq, &full) {
                Ok(n) => c.nontriv((n > 0) as u64),
                Err((rule, e)) => c.violation(&format!("{rule} with ="), e, json!({"text": full, "eq": true})),
            }
        }
        match a02_judge(&l, &full) {
            Ok(n) => c.nontriv((n > 0) as u64),
            Err((rule, e)) => c.violation(&rule, e, json!({"text": full})),
        }
    });
    if c.thorough() {
        // two surroundings around each other
        let few: Vec<&str> = TIGHT.iter().chain(LOOSE).copied().collect();
        let seeds: Vec<&Template> = s.templates.iter().filter(|t| l.lint(&t.text).is_ok_and(|d| d.iter().any(|d| !placeholder(&d.fix))) && !t.text.contains('\n')).collect();
        let n = (seeds.len() * few.len() * few.len()) as u64;
        c.par(n, |i| {
            let i = i as usize;
            let t = seeds[i / few.len() / few.len()];
            let Some((inner, _, _)) = stands(few[i / few.len() % few.len()], &t.text) else { return };
            let Some((full, _, _)) = stands(few[i % few.len()], &inner) else { return };
            c.eval(1);
            match a02_judge(&l, &full) {
                Ok(n) => c.nontriv((n > 0) as u64),
                Err((rule, e)) => c.violation(&rule, e, json!({"text": full})),
            }
        });
    }
    c.finish()
}

// ---------------------------------------------------------------- A03
const STAMP: u64 = 1_000_000_000;
fn key(ds: &[Diagnostic]) -> Vec<String> {
    let mut v: Vec<String> = ds
        .iter()
        .map(|d| format!("{} {:?} {:?} {:?}", d.message.name, d.range, d.location.as_ref().map(|l| (l.row(), l.column())), d.message.body))
        .collect();
    v.sort();
    v
}
fn fixing(o: &Opts, texts: &[String], scratch: &Scratch) -> Vec<(Outcome, bool)> {
    let d = scratch.sub();
    let paths: Vec<std::path::PathBuf> = (0..texts.len()).map(|i| d.dir.join(format!("f{i}.R"))).collect();
    let stamp = std::time::UNIX_EPOCH + std::time::Duration::from_secs(STAMP);
    for (p, t) in paths.iter().zip(texts) {
        std::fs::write(p, t).expect("write");
        std::fs::File::options().write(true).open(p).unwrap().set_modified(stamp).unwrap();
    }
    let config = jarl_core::config::build_config(&o.args(paths.clone()), o.settings.as_ref(), paths.clone()).expect("build_config");
    let results = jarl_core::check::check(config);
    assert_eq!(results.len(), texts.len());
    results
        .into_iter()
        .zip(&paths)
        .map(|((_, r), p)| {
            let touched = std::fs::metadata(p).unwrap().modified().unwrap() != stamp;
            (Outcome { result: r.map_err(|e| format!("{e:#}")), after: std::fs::read_to_string(p).expect("read back") }, touched)
        })
        .collect()
}
/// Rounds of fixing in memory: does it come to rest? (so that the real run may be started)
fn rests(l: &Linter, text: &str) -> Result<(u64, String), String> {
    let mut seen = vec![text.to_string()];
    loop {
        let cur = seen.last().unwrap();
        let Ok(ds) = l.lint(cur) else { return Ok((seen.len() as u64 - 1, cur.clone())) };
        let Ok((_, new)) = mcx::catch(|| apply_fixes(&ds, cur)) else { return Ok((seen.len() as u64 - 1, cur.clone())) };
        if new == *cur {
            return Ok((seen.len() as u64 - 1, new));
        }
        if seen.contains(&new) || seen.len() > 30 {
            return Err(format!("fixing never comes to rest: {} -> {:?}", seen.len(), &seen[seen.len().saturating_sub(2)..]));
        }
        seen.push(new);
    }
}
fn a03_batch(c: &Check, o: &Opts, l: &Linter, scratch: &Scratch, texts: Vec<String>) {
    let mut ends = vec![];
    let texts: Vec<String> = texts
        .into_iter()
        .filter(|t| match rests(l, t) {
            Ok((n, end)) => {
                ends.push(end);
                c.outcome(&format!("at rest after {n} rounds"), 1);
                c.states.fetch_add(n + 1, Relaxed);
                c.transitions.fetch_add(n, Relaxed);
                true
            }
            Err(e) => {
                c.violation("endless", e, json!({"text": t, "unsafe": o.unsafe_fixes, "eq": o.assignment.is_some()}));
                false
            }
        })
        .collect();
    c.eval(texts.len() as u64);
    c.validated.fetch_add(texts.len() as u64, Relaxed);
    let first = fixing(o, &texts, scratch);
    let again_in: Vec<String> = first.iter().map(|(r, _)| r.after.clone()).collect();
    let second = fixing(o, &again_in, scratch);
    let mut plain = o.clone();
    plain.fix = false;
    plain.unsafe_fixes = false;
    let fresh = run(scratch, "R", &again_in, &plain);
    for (i, t) in texts.iter().enumerate() {
        let rep = || json!({"text": t, "unsafe": o.unsafe_fixes, "eq": o.assignment.is_some()});
        let (a, b) = (&first[i], &second[i]);
        let changed = a.0.after != *t;
        c.nontriv(changed as u64);
        if a.0.result.is_err() && changed && parses(t) != parses(&a.0.after) {
            c.violation("broken", format!("fixing {t:?} leaves {:?}, which cannot be parsed", a.0.after), rep());
            continue;
        }
        if b.0.after != a.0.after {
            c.violation("not-done", format!("fixing {t:?} leaves {:?}, which a second run turns into {:?}", a.0.after, b.0.after), rep());
            continue;
        }
        if a.0.result.is_ok() && a.0.after != ends[i] {
            c.violation("left", format!("fixing {t:?} leaves {:?}, but its fixes lead to {:?}", a.0.after, ends[i]), rep());
            continue;
        }
        if !changed && a.1 || b.1 {
            c.violation("rewritten", format!("{:?} was rewritten although nothing was fixed", a.0.after), rep());
            continue;
        }
        match (&a.0.result, &b.0.result) {
            (Ok(x), Ok(y)) => {
                if key(x) != key(y) {
                    c.violation("report", format!("after fixing {t:?} the report is {:?} but {:?} is what the file has", key(x), key(y)), rep());
                    continue;
                }
                // and it is what linting the file alone reports (with all fixes
                // allowed; otherwise rules with hidden fixes are not reported)
                if let Ok(z) = &fresh[i].result {
                    let (kx, kz) = (key(x), key(z));
                    if o.unsafe_fixes && kx != kz || kx.iter().any(|d| !kz.contains(d)) {
                        c.violation("report", format!("after fixing {t:?} the report is {kx:?} but linting the file gives {kz:?}"), rep());
                    }
                }
            }
            (Err(_), Err(_)) => {}
            (x, y) => c.violation("report", format!("fixing {t:?}: {:?}, again: {:?}", x.as_ref().map(|v| v.len()), y.as_ref().map(|v| v.len())), rep()),
        }
    }
}
fn a03() {
    let c: &'static Check = Box::leak(Box::new(Check::new("A03", "model_checking")));
    c.rule("rounds of fixing as transitions between texts, from every corpus expression in every surrounding and from pairs of expressions; the real runs on files (fix, fix again, lint) are compared with each other, and files without fixes keep their modification time");
    c.assume("whole files in a scratch directory outside version control, with the flags that allow it");
    let (tx, rx) = std::sync::mpsc::channel();
    let limit = c.pick(300, 840);
    std::thread::spawn(move || {
        a03_run(c);
        tx.send(()).ok();
    });
    if rx.recv_timeout(std::time::Duration::from_secs(limit)).is_err() {
        c.violation("endless", format!("fixing the explored files did not end within {limit} s"), json!({}));
    }
    // the check lives as long as the process, which ends here
    unsafe { std::ptr::read(c) }.finish()
}
fn a03_run(c: &Check) {
    let scratch = Scratch::new("a03");
    scratch.enter();
    let modes = [Opts::all().unsafely(), Opts::all().fixing(), Opts::all().unsafely().equals()];
    let linters: Vec<Linter> = modes.iter().map(|o| Linter::new(o, "R")).collect();
    if let Some(r) = c.replay() {
        let m = if r["eq"] == true { 2 } else { !r["unsafe"].as_bool().unwrap_or(true) as usize };
        a03_batch(c, &modes[m], &linters[m], &scratch, vec![r["text"].as_str().unwrap_or("").into()]);
        return;
    }
    let s = Space::new();
    const B: u64 = 256;
    // the same file holding several violations next to and inside each other
    let fixable: Vec<&str> = s.templates.iter().filter(|t| !t.text.contains('\n') && linters[0].lint(&t.text).is_ok_and(|d| d.iter().any(|d| !placeholder(&d.fix)))).map(|t| t.text.as_str()).collect();
    let few: Vec<&str> = {
        // one or more expressions per rule
        let mut per = std::collections::BTreeMap::<String, Vec<&str>>::new();
        for t in &fixable {
            for d in linters[0].lint(t).unwrap() {
                if !placeholder(&d.fix) {
                    per.entry(d.message.name).or_default().push(t);
                }
            }
        }
        per.values().flat_map(|v| v.iter().take(c.pick(1, 3)).copied()).collect()
    };
    c.extra("fixable expressions", fixable.len() as u64);
        let total = s.len();
    for (o, l) in modes.iter().zip(&linters) {
        c.par(total.div_ceil(B), |b| {
            let mut texts = vec![];
            for i in b * B..((b + 1) * B).min(total) {
                if let Some((_, _, full)) = s.get(i) {
                    if o.assignment.is_some() && !full.contains("<-") && !full.contains("->") {
                        continue;
                    }
                    texts.push(full);
                }
            }
            if !texts.is_empty() {
                a03_batch(c, o, l, &scratch, texts);
            }
        });
        let n = few.len() as u64;
        c.par(n, |i| {
            let a = few[i as usize];
            let texts: Vec<String> = few
                .iter()
                .flat_map(|b| [format!("{a}\n{b}\n"), format!("f({a}, {b})"), format!("x <- {a}; {b}"), format!("f({a}, g({b}), {a})\n'\u{e9}'; {b}")])
                .filter(|t| parses(t))
                .collect();
            a03_batch(c, o, l, &scratch, texts);
        });
        // files whose fixes together leave the length as it was
        let change = |t: &str| -> Option<i64> {
            let d: Vec<_> = l.lint(t).ok()?.into_iter().filter(|d| !placeholder(&d.fix)).collect();
            (d.len() == 1).then(|| d[0].fix.content.len() as i64 - (d[0].fix.end as i64 - d[0].fix.start as i64))
        };
        let pool: Vec<(&str, i64)> = fixable.iter().take(c.pick(400, 100_000)).filter_map(|t| change(t).map(|n| (*t, n))).collect();
        let mut balanced: Vec<String> = vec![];
        for (a, x) in &pool {
            if *x == 0 {
                balanced.push(format!("{a}\n"));
                continue;
            }
            let mut kinds = std::collections::BTreeSet::new();
            for (b, y) in pool.iter().filter(|(_, y)| y.signum() == -x.signum()) {
                let g = (1..=x.abs().min(y.abs())).rev().find(|g| x % g == 0 && y % g == 0).unwrap();
                let (m, n) = ((y / g).unsigned_abs() as usize, (x / g).unsigned_abs() as usize);
                if m + n <= c.pick(4, 8) && kinds.insert((m, n, *y)) {
                    balanced.push(format!("{}{}", format!("{a}\n").repeat(m), format!("{b}\n").repeat(n)));
                }
            }
        }
        c.outcome("files whose length stays", balanced.len() as u64);
        c.par((balanced.len() as u64).div_ceil(B), |i| {
            let texts = balanced.iter().skip((i * B) as usize).take(B as usize).cloned().collect();
            a03_batch(c, o, l, &scratch, texts);
        });
    }
}

// ---------------------------------------------------------------- A04
fn a04() {
    use jarl_core::rule_set::{FixStatus, Rule};
    use jarl_core::settings::{LinterSettings, Settings};
    let c = Check::new("A04", "exploration");
    c.rule("for every rule with a fix, every expression of the corpus that shows one: all combinations of --fix, --unsafe-fixes, --fix-only, fixable and unfixable lists (absent, empty, this rule, another rule, its group, ALL) and file types; the file may change exactly when the documented permissions allow this rule's fix");
    let scratch = Scratch::new("a04");
    scratch.enter();
    let templates = corpus();
    // per rule, texts whose only fixes are this rule's when it alone is selected
    let mut cases: Vec<(Rule, String)> = vec![];
    for r in Rule::all() {
        if r.fix_status() == FixStatus::None {
            continue;
        }
        let mut o = Opts::all().unsafely();
        o.select = r.name().into();
        let l = Linter::new(&o, "R");
        let mut n = 0;
        for t in &templates {
            if l.lint(&t.text).is_ok_and(|d| d.iter().any(|d| !placeholder(&d.fix))) {
                cases.push((*r, t.text.clone()));
                n += 1;
                if n == c.pick(2, 12) {
                    break;
                }
            }
        }
        c.outcome(if n == 0 { "rules without an example" } else { "rules with examples" }, 1);
        if n == 0 {
            c.sample(json!({"rule without example": r.name()}));
        }
    }
    let lists = 7usize; // absent, [], [rule], [other], [group], ["ALL"], [rule, other]
    let flags = 8usize;
    let exts = ["R", "r", "Rmd", "qmd", "rmd", "Qmd"];
    let other = |r: &Rule| if r.name() == "any_is_na" { "class_equals" } else { "any_is_na" };
    let list = |k: usize, r: &Rule| -> Option<Vec<String>> {
        match k {
            0 => None,
            1 => Some(vec![]),
            2 => Some(vec![r.name().into()]),
            3 => Some(vec![other(r).into()]),
            4 => Some(vec![r.categories()[0].as_str().into()]),
            5 => Some(vec!["ALL".into()]),
            _ => Some(vec![other(r).into(), r.name().into()]),
        }
    };
    let member = |k: usize| -> Option<bool> {
        match k {
            0 => None,
            1 | 3 => Some(false),
            _ => Some(true),
        }
    };
    let judge = |ci: usize, fl: usize, fa: usize, fu: usize, e: usize| -> Result<bool, String> {
        let (r, text) = &cases[ci];
        let settings = Settings {
            linter: LinterSettings { fixable: list(fa, r), unfixable: list(fu, r), ..LinterSettings::default() },
            ..Settings::default()
        };
        let o = Opts {
            select: r.name().into(),
            min_r: Some("4.5".into()),
            fix: fl & 1 != 0,
            unsafe_fixes: fl & 2 != 0,
            fix_only: fl & 4 != 0,
            settings: Some(settings),
            ..Opts::default()
        };
        let rmd = e >= 2;
        let file = if rmd { format!("```{{r}}\n{text}\n```\n") } else { format!("{text}\n") };
        let out = run(&scratch, exts[e], &[file.clone()], &o).remove(0);
        let safe = r.fix_status() == FixStatus::Safe;
        let may = !rmd
            && (o.fix || o.fix_only || o.unsafe_fixes)
            && (safe || o.unsafe_fixes)
            && member(fa).unwrap_or(true)
            && !member(fu).unwrap_or(false);
        let did = out.after != file;
        let d = format!("{} ({}) on {file:?} with fix={} unsafe={} fix_only={} fixable={:?} unfixable={:?} .{}", r.name(), if safe { "safe" } else { "unsafe" }, o.fix, o.unsafe_fixes, o.fix_only, list(fa, r), list(fu, r), exts[e]);
        if let Err(e) = &out.result {
            return Err(format!("{d}: {e}"));
        }
        if did && !may {
            return Err(format!("{d}: the file was changed to {:?}", out.after));
        }
        if may && !did {
            return Err(format!("{d}: the fix was not applied"));
        }
        // forbidden fixes don't hide the violation itself
        if !did && (safe || o.unsafe_fixes || !(o.fix || o.fix_only)) && out.result.as_ref().unwrap().is_empty() {
            return Err(format!("{d}: the violation is neither fixed nor reported"));
        }
        Ok(did)
    };
    let p = mcx::Product::new(&[cases.len(), flags, lists, lists, exts.len()]);
    if let Some(r) = c.replay() {
        let v: Vec<usize> = serde_json::from_value(r["case"].clone()).unwrap();
        let name = r["rule"].as_str().unwrap_or("");
        let ci = cases.iter().position(|(q, t)| q.name() == name && Some(t.as_str()) == r["text"].as_str()).unwrap_or(v[0]);
        if let Err(e) = judge(ci, v[1], v[2], v[3], v[4]) {
            c.violation(name, e, r.clone());
        }
        c.finish();
    }
    c.par(p.count(), |i| {
        let mut v = vec![];
        p.get(i, &mut v);
        c.eval(1);
        match judge(v[0], v[1], v[2], v[3], v[4]) {
            Ok(did) => c.nontriv(did as u64),
            Err(e) => c.violation(cases[v[0]].0.name(), e, json!({"case": v, "rule": cases[v[0]].0.name(), "text": cases[v[0]].1})),
        }
    });
    drop(scratch);
    c.finish()
}

// ---------------------------------------------------------------- A05
/// The text with a comment in the gap before the `k`-th token, if that leaves
/// the program as it is.
fn commented(text: &str, gaps: &[usize], ks: &[usize], want: &str) -> Option<String> {
    let mut out = String::new();
    let mut last = 0;
    for (n, k) in ks.iter().enumerate() {
        out.push_str(&text[last..gaps[*k]]);
        out.push_str(&format!(" # c{n}\n"));
        last = gaps[*k];
    }
    out.push_str(&text[last..]);
    (shape(&out).as_deref() == Some(want)).then_some(out)
}
fn gaps(text: &str) -> Vec<usize> {
    let Some(t) = tree(text) else { return vec![] };
    let mut v: Vec<usize> = t.descendants_tokens(biome_rowan::Direction::Next).map(|t| usize::from(t.text_trimmed_range().start())).collect();
    v.push(text.len());
    v.dedup();
    v
}
fn a05_judge(l: &Linter, text: &str) -> Result<bool, (String, String)> {
    let Some(before) = comments(text) else { return Ok(false) };
    let mut cur = text.to_string();
    let mut rounds = 0;
    loop {
        let Ok(ds) = l.lint(&cur) else { return Ok(rounds > 0) };
        // each fix on its own
        for d in &ds {
            if placeholder(&d.fix) {
                continue;
            }
            let Some(one) = apply_one(&cur, &d.fix) else { continue };
            let Some(after) = comments(&one) else { continue };
            let mut need = before.clone();
            let mut have = after.clone();
            need.sort();
            have.sort();
            if have != need {
                return Err((d.message.name.clone(), format!("{cur:?} becomes {one:?}")));
            }
        }
        let (_, new) = apply_fixes(&ds, &cur);
        rounds += 1;
        if new == cur || rounds > 30 {
            return Ok(rounds > 1);
        }
        cur = new;
    }
}
fn a05() {
    let c = Check::new("A05", "exploration");
    c.rule("every expression of the corpus that has a fix, with a comment at every place between its tokens (thorough: at every pair of places) that leaves the program the same; no fix may remove, change or duplicate a comment");
    let l = Linter::new(&Opts::all().unsafely(), "R");
    if let Some(r) = c.replay() {
        if let Err((rule, e)) = a05_judge(&l, r["text"].as_str().unwrap()) {
            c.violation(&rule, e, r.clone());
        }
        c.finish();
    }
    let mut texts: Vec<String> = corpus()
        .into_iter()
        .filter(|t| l.lint(&t.text).is_ok_and(|d| d.iter().any(|d| !placeholder(&d.fix))))
        .flat_map(|t| [t.text.clone(), format!("f({})", t.text), format!("x <- {}", t.text), format!("f(a, {})\nb", t.text)])
        .filter(|t| parses(t))
        .collect();
    texts.sort();
    texts.dedup();
    c.par(texts.len() as u64, |i| {
        let t = &texts[i as usize];
        let want = shape(t).unwrap();
        let g = gaps(t);
        let go = |ks: &[usize]| {
            let Some(text) = commented(t, &g, ks, &want) else { return };
            c.eval(1);
            match a05_judge(&l, &text) {
                Ok(b) => c.nontriv(b as u64),
                Err((rule, e)) => c.violation(&rule, format!("{rule}: {}", short(&e, 600)), json!({"text": text})),
            }
        };
        for k in 0..g.len() {
            go(&[k]);
            for m in k + 1..g.len() {
                if c.thorough() || m == k + 1 {
                    go(&[k, m]);
                }
            }
        }
    });
    c.finish()
}

// ---------------------------------------------------------------- A07
fn a07() {
    let c = Check::new("A07", "exploration");
    c.rule("every expression of the corpus with a fix, each variable in it replaced by one expression of every form and binding strength, also after another one has been replaced by one of six (thorough: all) of them: the fix of the substituted code is the substituted fix, compared as syntax trees up to parentheses");
    c.assume("constants, `?` and blocks as operands may make a rule choose another rewrite and are not judged");
    let l = Linter::new(&Opts::all().unsafely(), "R");
    let ops: Vec<&str> = OPERANDS.iter().copied().filter(|o| a07_op(o)).collect();
    // the expression, and the variables that are exchanged in it
    let mut templates: Vec<(String, Vec<String>)> = vec![];
    let first: Vec<&str> = c.pick(vec!["f(b)", "a[1]", "a + b", "(a) + (b)", "-a", "a$n"], ops.clone());
    for mut x in corpus() {
        x.text = x.text.trim().to_string();
        let names = operand_names(&x.text);
        for v in &names {
            if is_target(&x.text, v) {
                continue;
            }
            let others: Vec<String> = names.iter().filter(|n| *n != v).cloned().collect();
            if others.is_empty() {
                continue;
            }
            for e in &first {
                if let Some(y) = substitute(&x.text, v, e) {
                    templates.push((y, others.clone()));
                }
            }
        }
        templates.push((x.text, names));
    }
    let judge = |t: &str, v: &str, e: &str| -> Result<u64, (String, String)> {
        let Some(te) = substitute(t, v, e) else { return Ok(0) };
        let (Ok(d0), Ok(d1)) = (l.lint(t), l.lint(&te)) else { return Ok(0) };
        let mut n = 0;
        for a in &d0 {
            if placeholder(&a.fix) || a.fix.start != 0 || a.fix.end != t.len() {
                continue;
            }
            let Some(b) = d1.iter().find(|b| b.message.name == a.message.name && !placeholder(&b.fix) && b.fix.start == 0 && b.fix.end == te.len()) else { continue };
            n += 1;
            let es = expr_shape(e, true).unwrap();
            let want = shape_with(&a.fix.content, v, &es, true);
            let got = shape_plain(&b.fix.content, true);
            if want != got {
                return Err((a.message.name.clone(), format!("{t:?} becomes {:?}, but with {e:?} for {v}, {te:?} becomes {:?}", a.fix.content, b.fix.content)));
            }
        }
        Ok(n)
    };
    if let Some(r) = c.replay() {
        if let Err((rule, e)) = judge(r["text"].as_str().unwrap(), r["name"].as_str().unwrap(), r["operand"].as_str().unwrap()) {
            c.violation(&rule, e, r.clone());
        }
        c.finish();
    }
    c.par(templates.len() as u64, |i| {
        let (t, names) = &templates[i as usize];
        if shape_around(t, 0, t.len()).is_none() || !l.lint(t).is_ok_and(|d| d.iter().any(|d| !placeholder(&d.fix))) {
            return;
        }
        for v in names {
            // not as the target of an assignment
            let target = is_target(t, v);
            for e in ops.iter().filter(|e| !target || ["a[1]", "a[[1]]", "a[, 1]", "a$n", "a@n", "`a b`", "a.b", "\u{e9}", "f(a)"].contains(e)) {
                c.eval(1);
                match judge(t, v, e) {
                    Ok(n) => c.nontriv((n > 0) as u64),
                    Err((rule, w)) => c.violation(&rule, w, json!({"text": t, "name": v, "operand": e})),
                }
            }
        }
    });
    c.finish()
}
fn a07_op(o: &str) -> bool {
    let constant = ["'", "\"", "1", "-1", "TRUE", "FALSE", "NA", "NULL", "Inf", "NaN", "r\""].iter().any(|p| o.starts_with(p));
    !constant && !o.contains('?') && !o.contains('{') && !o.starts_with('!') && o != "..." && o != "'\u{1F600}'"
}

fn is_target(t: &str, v: &str) -> bool {
    let s: String = t.chars().filter(|c| !c.is_whitespace()).collect();
    s.starts_with(&format!("{v}=")) || s.starts_with(&format!("{v}<-")) || s.ends_with(&format!("->{v}")) || s.ends_with(&format!("->>{v}"))
}
