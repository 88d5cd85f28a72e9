//! Suppression comments: S03 what they hide and what is reported about them,
//! S04 documents, S05 inserted comments.
use checks2::progs::*;
use checks2::*;
use mcx::{json, Check};
use std::collections::{BTreeMap, BTreeSet};

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "S03" => s03(),
        "S04" => s04(),
        "S05" => s05(),
        _ => {
            eprintln!("suppress S03..S05");
            std::process::exit(2)
        }
    }
}

// ---------------------------------------------------------------- programs
const A: &str = "any_is_na";
const B: &str = "any_duplicated";
const RULES: &str = "any_is_na,any_duplicated,blanket_suppression,invalid_chunk_suppression,misnamed_suppression,misplaced_file_suppression,misplaced_suppression,outdated_suppression,unexplained_suppression,unmatched_range_suppression";

/// What can stand in a block.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Leaf {
    /// A violation of a rule, written in one of several ways.
    V(&'static str, u8),
    /// The same with a suppression comment at the end of the line.
    Vt(&'static str),
    /// Code without violation and a comment of some kind at the end of the line.
    Zt(&'static Leaf),
    /// Code without violation.
    Z,
    Ignore(&'static str),
    Start(&'static str),
    End(&'static str),
    File(&'static str),
    Blanket,
    Unexplained,
    Misnamed,
    Note,
    /// `#| jarl-ignore-chunk` with a list of these rules.
    Chunk(&'static [&'static str]),
    /// The same on one line.
    ChunkLine(&'static str),
}
use Leaf::*;
const LEAVES: &[Leaf] = &[V(A, 0), V(B, 1), Ignore(A), Ignore(B), Start(A), End(A), Z, File(A), Vt(A), V(A, 2), Note, Start(B), End(B), Unexplained, Misnamed, Blanket, Zt(&Misnamed), Zt(&Blanket), Zt(&Unexplained), Zt(&Start(A)), Zt(&End(A)), Zt(&File(A)), Zt(&Note), Zt(&Ignore(B))];

/// Blocks nested in each other; `Hole` stands for a leaf.
#[derive(Clone, Debug)]
enum Shape {
    Hole,
    /// Text before, blocks with the text after each.
    Comp(&'static Form, Vec<Vec<Shape>>),
}
#[derive(Debug)]
struct Form {
    open: &'static str,
    /// What ends each block.
    ends: &'static [&'static str],
    args: bool,
    /// Holds comments and then one statement.
    single: bool,
    /// The rule named by a suppression comment after the opening bracket.
    eol: Option<&'static str>,
    /// The rule that the opening line itself violates.
    own: Option<&'static str>,
}
const PLAIN: Form = Form { open: "", ends: &[], args: false, single: false, eol: None, own: None };
const FORMS: &[Form] = &[
    Form { open: "f <- function(x) {", ends: &["}"], ..PLAIN },
    Form { open: "g(", ends: &[")"], args: true, ..PLAIN },
    Form { open: "if (a) {", ends: &["} else {", "}"], ..PLAIN },
    Form { open: "while (any(is.na(x))) {", ends: &["}"], own: Some(A), ..PLAIN },
    Form { open: "local({", ends: &["})"], ..PLAIN },
    Form { open: "m[", ends: &["]"], args: true, ..PLAIN },
    Form { open: "if (a) { # jarl-ignore any_is_na: why", ends: &["}"], eol: Some(A), ..PLAIN },
    Form { open: "g( # jarl-ignore any_is_na: why", ends: &[")"], eol: Some(A), args: true, ..PLAIN },
    Form { open: "f <- function(x)", ends: &[""], single: true, ..PLAIN },
    Form { open: "y <-", ends: &[""], single: true, ..PLAIN },
    Form { open: "(", ends: &[")"], single: true, ..PLAIN },
    Form { open: "if (a)", ends: &[""], single: true, ..PLAIN },
    Form { open: "if (", ends: &[") b"], single: true, ..PLAIN },
    Form { open: "( # jarl-ignore any_is_na: why", ends: &[")"], eol: Some(A), single: true, ..PLAIN },
    Form { open: "{", ends: &["} # jarl-ignore-file any_is_na: why"], ..PLAIN },
];

fn code(l: Leaf) -> bool {
    matches!(l, V(..) | Vt(..) | Zt(_) | Z)
}
fn comment_text(l: Leaf) -> String {
    match l {
        Ignore(r) => format!("# jarl-ignore {r}: why"),
        Start(r) => format!("# jarl-ignore-start {r}: why"),
        End(r) => format!("# jarl-ignore-end {r}"),
        File(r) => format!("# jarl-ignore-file {r}: why"),
        Blanket => "# jarl-ignore: why".into(),
        Unexplained => format!("# jarl-ignore {A}"),
        Misnamed => "# jarl-ignore no_such_rule: why".into(),
        Note => "# note".into(),
        ChunkLine(r) => format!("#| jarl-ignore-chunk {r}: why"),
        _ => unreachable!(),
    }
}

/// A rendered program: lines, and what the documentation says about each.
#[derive(Default)]
struct Prog {
    lines: Vec<String>,
    /// (line, rule) of every violation.
    found: Vec<(usize, &'static str)>,
    /// comments: line, leaf, block, level
    comments: Vec<(usize, Leaf, usize, usize)>,
    /// per comment of kind Ignore: the lines of its target (start, end exclusive)
    target: BTreeMap<usize, (usize, usize)>,
    trailing: Vec<usize>,
    blocks: usize,
    code_seen_at: Option<usize>,
    /// The items of the current block: are they code?
    items: Vec<bool>,
    /// A form that holds one statement was given something else.
    invalid: bool,
    /// The documentation does not say what happens.
    open: Option<&'static str>,
    /// In documents: where the R chunks are, and whether the current one has code.
    chunks: Vec<(usize, usize)>,
    chunk_code: bool,
}
impl Prog {
    fn block(&mut self, items: &[Shape], leaves: &mut impl Iterator<Item = Leaf>, level: usize, args: bool, indent: usize) {
        self.blocks += 1;
        let block = self.blocks;
        let pad = "  ".repeat(indent);
        let mut waiting: Vec<usize> = vec![];
        // in calls: the line that needs a comma once another argument comes
        let mut last_arg: Option<usize> = None;
        for it in items {
            let start = self.lines.len();
            let is_code;
            match it {
                Shape::Hole => {
                    let l = leaves.next().unwrap();
                    is_code = code(l);
                    if is_code {
                        self.code_seen_at.get_or_insert(start);
                        if args {
                            if let Some(k) = last_arg {
                                comma(&mut self.lines[k]);
                            }
                        }
                    }
                    let body = |r: &str| if r == A { "any(is.na(x))" } else { "any(duplicated(x))" };
                    match l {
                        Z => self.lines.push(format!("{pad}z")),
                        V(r, 0) => {
                            self.found.push((start, r));
                            self.lines.push(format!("{pad}{}", body(r)));
                        }
                        V(r, 1) => {
                            self.found.push((start, r));
                            self.lines.push(format!("{pad}y {} {}", if args { "=" } else { "<-" }, body(r)));
                        }
                        V(r, _) => {
                            // over several lines, in a pipe
                            self.found.push((start, r));
                            self.lines.push(format!("{pad}x |>"));
                            self.lines.push(format!("{pad}  {}() |>", if r == A { "is.na" } else { "duplicated" }));
                            self.lines.push(format!("{pad}  any()"));
                        }
                        Vt(r) => {
                            self.found.push((start, r));
                            self.trailing.push(start);
                            self.lines.push(format!("{pad}{} # jarl-ignore {r}: why", body(r)));
                        }
                        Zt(l) => {
                            if *l != Note {
                                self.trailing.push(start);
                            }
                            self.lines.push(format!("{pad}z {}", comment_text(*l)));
                        }
                        Chunk(rules) => {
                            self.lines.push(format!("{pad}#| jarl-ignore-chunk:"));
                            for r in rules {
                                self.comments.push((self.lines.len(), Chunk(if *r == A { &[A] } else { &[B] }), block, level));
                                self.lines.push(format!("{pad}#|   - {r}: why"));
                            }
                            if self.chunk_code {
                                self.open = Some("a list of rules for a chunk after code");
                            }
                        }
                        c => {
                            self.comments.push((start, c, block, level));
                            self.lines.push(format!("{pad}{}", comment_text(c)));
                            if matches!(c, Ignore(_)) {
                                waiting.push(start);
                            }
                        }
                    }
                }
                Shape::Comp(f, bs) => {
                    is_code = true;
                    self.code_seen_at.get_or_insert(start);
                    if args {
                        if let Some(k) = last_arg {
                            comma(&mut self.lines[k]);
                        }
                    }
                    if let Some(r) = f.own {
                        self.found.push((start, r));
                    }
                    if f.eol.is_some() {
                        self.trailing.push(start);
                    }
                    self.lines.push(format!("{pad}{}", f.open));
                    for (b, end) in bs.iter().zip(f.ends) {
                        let before = self.items.clone();
                        self.items.clear();
                        self.block(b, leaves, if f.args || f.single { level } else { level + 1 }, f.args, indent + 1);
                        let inner = std::mem::replace(&mut self.items, before);
                        if f.single && (inner.iter().filter(|c| **c).count() != 1 || inner.last() != Some(&true)) {
                            self.invalid = true;
                        }
                        if end.contains('#') {
                            self.trailing.push(self.lines.len());
                        }
                        if !end.is_empty() {
                            self.lines.push(format!("{pad}{end}"));
                        }
                    }
                }
            }
            self.items.push(is_code);
            if is_code {
                self.chunk_code = true;
                for w in waiting.drain(..) {
                    self.target.insert(w, (start, self.lines.len()));
                }
                last_arg = Some(self.lines.len() - 1);
            }
        }
    }
    fn text(&self) -> String {
        self.lines.join("\n") + "\n"
    }
}
/// Puts a comma after the code of a line.
fn comma(line: &mut String) {
    match line.find(" #") {
        Some(k) => line.insert(k, ','),
        None => line.push(','),
    }
}

type Report = BTreeSet<(usize, String)>;
enum Expect {
    Open(&'static str),
    /// What must be reported, and the groups of comments of which one is used.
    Is { must: Report, may: Report, groups: Vec<Vec<usize>> },
}
/// What the documentation says jarl reports (lines from 0).
fn expect(p: &Prog) -> Expect {
    if let Some(o) = p.open {
        return Expect::Open(o);
    }
    let mut must = Report::new();
    let mut may = Report::new();
    // ranges: the next end of the same rule at the same level; ranges of a rule do not nest
    let mut open: BTreeMap<(&str, usize), (usize, usize)> = BTreeMap::new();
    let mut ranges: Vec<(usize, usize, &str)> = vec![];
    let mut files: Vec<(usize, &str)> = vec![];
    for &(line, l, block, level) in &p.comments {
        match l {
            Start(r) => {
                if let Some((old, b)) = open.insert((r, level), (line, block)) {
                    if b != block {
                        return Expect::Open("starts of one rule in two blocks of the same level");
                    }
                    must.insert((old, "unmatched_range_suppression".into()));
                }
            }
            End(r) => match open.remove(&(r, level)) {
                Some((s, b)) if b == block => ranges.push((s, line, r)),
                Some(_) => return Expect::Open("start and end in two blocks of the same level"),
                None => {
                    must.insert((line, "unmatched_range_suppression".into()));
                }
            },
            File(r) => {
                if p.code_seen_at.is_none() && p.chunks.is_empty() {
                    return Expect::Open("a file without code");
                }
                if p.code_seen_at.is_some_and(|c| c < line) || p.chunks.first().is_some_and(|c| line >= c.1) {
                    must.insert((line, "misplaced_file_suppression".into()));
                } else {
                    files.push((line, r));
                }
            }
            Blanket => {
                must.insert((line, "blanket_suppression".into()));
            }
            ChunkLine(_) => {
                must.insert((line, "invalid_chunk_suppression".into()));
            }
            Unexplained => {
                must.insert((line, "unexplained_suppression".into()));
            }
            Misnamed => {
                must.insert((line, "misnamed_suppression".into()));
            }
            _ => {}
        }
    }
    for (_, (line, _)) in open {
        must.insert((line, "unmatched_range_suppression".into()));
    }
    for l in &p.trailing {
        must.insert((*l, "misplaced_suppression".into()));
    }
    // who covers what
    let mut covers: BTreeMap<usize, u64> = BTreeMap::new();
    for (l, _) in &files {
        covers.insert(*l, 0);
    }
    for (s, _, _) in &ranges {
        covers.insert(*s, 0);
    }
    for (line, l, _, _) in &p.comments {
        if matches!(l, Ignore(_) | Chunk(_)) {
            covers.insert(*line, 0);
        }
    }
    let mut groups = vec![];
    for &(line, rule) in &p.found {
        let mut by: Vec<usize> = vec![];
        by.extend(files.iter().filter(|(_, r)| *r == rule).map(|(l, _)| *l));
        by.extend(ranges.iter().filter(|(s, e, r)| *r == rule && *s < line && line < *e).map(|(s, _, _)| *s));
        by.extend(p.comments.iter().filter(|(l, c, _, _)| *c == Ignore(rule) && p.target.get(l).is_some_and(|(s, e)| (*s..*e).contains(&line))).map(|c| c.0));
        let chunk = p.chunks.iter().position(|c| (c.0..c.1).contains(&line));
        by.extend(p.comments.iter().filter(|(l, c, _, _)| matches!(c, Chunk(r) if r.contains(&rule)) && chunk == p.chunks.iter().position(|c| (c.0..c.1).contains(l))).map(|c| c.0));
        if by.is_empty() {
            must.insert((line, rule.into()));
        }
        for c in &by {
            *covers.get_mut(c).unwrap() += 1;
        }
        if by.len() > 1 {
            for c in &by {
                may.insert((*c, "outdated_suppression".into()));
            }
            groups.push(by);
        } else if let [c] = by[..] {
            groups.push(vec![c]);
        }
    }
    for (c, n) in covers {
        if n == 0 {
            must.insert((c, "outdated_suppression".into()));
        }
    }
    Expect::Is { must, may, groups }
}
fn report(l: &Linter, text: &str) -> Result<Vec<(usize, String)>, String> {
    Ok(l.lint(text)?.into_iter().map(|d| (d.location.as_ref().unwrap().row() - 1, d.message.name)).collect())
}
fn compare(text: &str, got: &[(usize, String)], e: &Expect) -> Result<(), String> {
    let Expect::Is { must, may, groups } = e else { return Ok(()) };
    let set: Report = got.iter().cloned().collect();
    let one = |x: &(usize, String)| format!("{} in line {}", x.1, x.0 + 1);
    if set.len() != got.len() {
        return Err(format!("something is reported twice in\n{text}"));
    }
    if let Some(x) = must.iter().find(|x| !set.contains(x)) {
        return Err(format!("not reported: {} of\n{text}", one(x)));
    }
    if let Some(x) = set.iter().find(|x| !must.contains(x) && !may.contains(x)) {
        return Err(format!("wrongly reported: {} of\n{text}", one(x)));
    }
    for g in groups {
        if g.iter().all(|c| set.contains(&(*c, "outdated_suppression".into()))) {
            return Err(format!("all comments that hide a violation are called outdated (lines {:?} from 0) in\n{text}", g));
        }
    }
    Ok(())
}

/// The forms that stand inside others.
const INNER: &[Form] = FORMS.split_at(2).0;
/// All forests with `n` holes, nested at most `depth` times.
fn forests(n: usize, depth: usize, outer: &'static [Form]) -> Vec<Vec<Shape>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    // the first item takes k holes
    for f in forests(n - 1, depth, outer) {
        let mut v = vec![Shape::Hole];
        v.extend(f);
        out.push(v);
    }
    if depth > 0 {
        for k in 1..=n {
            for rest in forests(n - k, depth, outer) {
                for form in outer {
                    for parts in split(k, form.ends.len(), depth - 1) {
                        let mut v = vec![Shape::Comp(form, parts)];
                        v.extend(rest.clone());
                        out.push(v);
                    }
                }
            }
        }
    }
    out
}
fn split(k: usize, ways: usize, depth: usize) -> Vec<Vec<Vec<Shape>>> {
    if ways == 1 {
        return forests(k, depth, INNER).into_iter().map(|f| vec![f]).collect();
    }
    let mut out = vec![];
    for a in 0..=k {
        for f in forests(a, depth, INNER) {
            for mut r in split(k - a, ways - 1, depth) {
                r.insert(0, f.clone());
                out.push(r);
            }
        }
    }
    out
}

fn s03() {
    let c = Check::new("S03", "exploration");
    c.rule("every program of statements with and without violations, suppression comments of every kind (well-formed and malformed, for two rules), nested blocks, calls, conditions and loops, up to the bound; the violations and the remarks about comments that are reported are compared with what the documentation says about placement");
    c.assume("not judged because the documentation leaves it open: ranges that start and end in different blocks of the same nesting level, file comments in files without code, and which of several comments that hide the same violation is called outdated");
    let l = Linter::new(&Opts { select: RULES.into(), ..Opts::default() }, "R");
    let judge = |shape: &[Shape], leaves: &[Leaf]| -> Option<(String, Result<(), String>)> {
        let mut p = Prog::default();
        p.block(shape, &mut leaves.iter().copied(), 0, false, 0);
        if p.invalid {
            return None;
        }
        let e = expect(&p);
        if let Expect::Open(w) = e {
            c.outcome(w, 1);
            return None;
        }
        let text = p.text();
        let r = match report(&l, &text) {
            Ok(got) => compare(&text, &got, &e),
            Err(e) => Err(format!("{e} for\n{text}")),
        };
        Some((text, r))
    };
    // items, nesting, kinds of items, kinds of blocks
    const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23];
    // violations and ranges, of one rule and of two
    const RANGES: &[usize] = &[0, 4, 5];
    const RANGES2: &[usize] = &[0, 1, 4, 5, 11, 12];
    const MOST: &[usize] = &[0, 2, 4, 5, 7];
    let quick: &[(usize, usize, &[usize], usize)] = &[(1, 2, ALL, 15), (2, 2, ALL, 15), (3, 1, &ALL[..7], 15), (4, 1, &ALL[..4], 3), (7, 0, RANGES, 1), (6, 0, RANGES2, 1), (5, 1, RANGES, 1)];
    let deep: &[(usize, usize, &[usize], usize)] = &[(1, 2, ALL, 15), (2, 2, ALL, 15), (3, 2, &ALL[..10], 15), (3, 1, &ALL[..16], 15), (4, 1, &ALL[..8], 5), (5, 1, &ALL[..5], 2), (9, 0, RANGES, 1), (7, 0, RANGES2, 1), (6, 0, MOST, 1), (6, 1, RANGES, 1), (5, 1, RANGES2, 1), (5, 2, RANGES, 1)];
    let sizes = if c.thorough() { deep } else { quick };
    if let Some((text, hidden)) = c.replay().and_then(|r| Some((r["fixed"].as_str()?.to_string(), r["hidden"].as_u64()? as usize))) {
        let scratch = Scratch::new("S03");
        scratch.enter();
        let out = run(&scratch, "R", &[text.clone()], &Opts { select: RULES.into(), ..Opts::default() }.fixing()).remove(0);
        let left = out.after.matches("is.na").count() + out.after.matches("duplicated(").count();
        if out.result.is_err() || left != hidden || comments(&text) != comments(&out.after) {
            c.violation("fixed", format!("{text}becomes\n{}", out.after), c.replay().unwrap().clone());
        }
        c.finish();
    }
    if let Some(r) = c.replay() {
        let shapes = forests(r["holes"].as_u64().unwrap() as usize, r["depth"].as_u64().unwrap() as usize, &FORMS[..r["forms"].as_u64().unwrap() as usize]);
        let leaves: Vec<Leaf> = r["leaves"].as_array().unwrap().iter().map(|k| LEAVES[k.as_u64().unwrap() as usize]).collect();
        if let Some((_, Err(e))) = judge(&shapes[r["shape"].as_u64().unwrap() as usize], &leaves) {
            c.violation("suppression", e, r.clone());
        }
        c.finish();
    }
    for &(n, depth, kinds, nf) in sizes {
        let k = kinds.len();
        let shapes = forests(n, depth, &FORMS[..nf]);
        let words = (k as u64).pow(n as u32);
        c.extra(&format!("shapes with {n} items of {k} kinds"), shapes.len() as u64);
        if std::env::var("MCX_SIZES").is_ok() {
            eprintln!("{n} {depth} {k} {nf}: {} x {words}", shapes.len());
        }
        c.par(shapes.len() as u64 * words, |i| {
            let s = &shapes[(i / words) as usize];
            let mut w = i % words;
            let idx: Vec<usize> = (0..n)
                .map(|_| {
                    let d = (w % k as u64) as usize;
                    w /= k as u64;
                    kinds[d]
                })
                .collect();
            let leaves: Vec<Leaf> = idx.iter().map(|d| LEAVES[*d]).collect();
            if let Some((_, r)) = judge(s, &leaves) {
                c.eval(1);
                c.nontriv(leaves.iter().any(|l| !code(*l)) as u64);
                if let Err(e) = r {
                    c.violation(&e.split(" in line").next().unwrap().split(" (").next().unwrap().to_string(), e, json!({"holes": n, "depth": depth, "forms": nf, "shape": i / words, "leaves": idx}));
                }
            }
        });
    }
    // what is hidden is not fixed either
    let scratch = Scratch::new("S03");
    scratch.enter();
    let o = Opts { select: RULES.into(), ..Opts::default() }.fixing();
    for &(n, depth, k, nf) in if c.thorough() { &[(2, 2, 16, 13), (3, 1, 6, 13)][..] } else { &[(2, 1, 16, 13)][..] } {
        let shapes = forests(n, depth, &FORMS[..nf]);
        let words = (k as u64).pow(n as u32);
        c.par(shapes.len() as u64, |i| {
            let mut texts = vec![];
            let mut hidden = vec![];
            for mut w in 0..words {
                let leaves: Vec<Leaf> = (0..n)
                    .map(|_| {
                        let d = (w % k as u64) as usize;
                        w /= k as u64;
                        LEAVES[d]
                    })
                    .collect();
                let mut p = Prog::default();
                p.block(&shapes[i as usize], &mut leaves.iter().copied(), 0, false, 0);
                if let (false, Expect::Is { must, .. }) = (p.invalid, expect(&p)) {
                    texts.push(p.text());
                    hidden.push(p.found.iter().filter(|(l, r)| !must.contains(&(*l, r.to_string()))).count());
                }
            }
            for ((text, hidden), out) in texts.iter().zip(hidden).zip(run(&scratch, "R", &texts, &o)) {
                c.eval(1);
                c.nontriv((hidden > 0) as u64);
                c.outcome("programs fixed", 1);
                let left = out.after.matches("is.na").count() + out.after.matches("duplicated(").count();
                let same = comments(text) == comments(&out.after);
                if out.result.is_err() || left != hidden || !same {
                    c.violation("fixed", format!("--fix leaves {left} of the {hidden} violations that comments hide{}: {:?}\n{text}becomes\n{}", if same { "" } else { " and changes comments" }, out.result.err(), out.after), json!({ "fixed": text, "hidden": hidden }));
                }
            }
        });
    }
    c.finish()
}

// ---------------------------------------------------------------- S05
fn s05() {
    let c = Check::new("S05", "exploration");
    c.rule("every expression of the corpus in every surrounding, and in some of them in documents of seven forms and with Windows line ends: after `jarl check --add-jarl-ignore` the program has the same code, the same comments plus suppression comments for rules that it violates, and jarl reports nothing any more");
    let scratch = Scratch::new("S05");
    scratch.enter();
    let o = Opts { ignore: "unused_function".into(), ..Opts::all() };
    let l = Linter::new(&o, "R");
    // comments about comments are not for this
    let about = ["blanket", "invalid_chunk", "misnamed", "misplaced_file", "misplaced", "outdated", "unexplained", "unmatched_range"].map(|s| format!("{s}_suppression"));
    let ignore = format!("unused_function,{}", about.join(","));
    let corpus = corpus();
    let contexts: Vec<&str> = LINES.iter().chain(LOOSE).chain(TIGHT).copied().collect();
    let names = |t: &str| -> Option<Vec<String>> { Some(l.lint(t).ok()?.into_iter().map(|d| d.message.name).collect()) };
    let judge = |before: &str, after: &str, rules: &[String]| -> Result<(), (&'static str, String)> {
        if shape(after) != shape(before) {
            return Err(("code", "the code changes".into()));
        }
        let old = comments(before).unwrap_or_default();
        let mut new = comments(after).unwrap_or_default();
        for r in &old {
            if let Some(k) = new.iter().position(|n| n == r) {
                new.remove(k);
            } else {
                return Err(("comments", format!("the comment {r} is lost")));
            }
        }
        for n in &new {
            if !rules.iter().any(|r| *n == format!("# jarl-ignore {r}: because")) {
                return Err(("comments", format!("the comment {n} is not for a violation")));
            }
        }
        match l.lint(after) {
            Err(e) => Err(("error", e)),
            Ok(v) => match v.first() {
                None => Ok(()),
                Some(d) if d.message.name == "outdated_suppression" => Err(("outdated", format!("outdated_suppression is reported afterwards in line {}", d.location.as_ref().unwrap().row()))),
                Some(d) => Err(("still", format!("{} is still reported in line {}", d.message.name, d.location.as_ref().unwrap().row()))),
            },
        }
    };
    let batch = |texts: &[String], ext: &str| -> Vec<String> {
        let d = scratch.sub();
        for (i, t) in texts.iter().enumerate() {
            std::fs::write(d.dir.join(format!("f{i}.{ext}")), t).unwrap();
        }
        let r = cli::run_in(&d.dir, &["check", ".", "--add-jarl-ignore=because", "--select", "ALL", "--ignore", &ignore, "--min-r-version", "4.5"]);
        if r.status != Some(0) {
            c.violation("exit", format!("--add-jarl-ignore exits with {:?}: {}", r.status, r.err), json!({"texts": texts, "ext": ext}));
        }
        (0..texts.len()).map(|i| std::fs::read_to_string(d.dir.join(format!("f{i}.{ext}"))).unwrap()).collect()
    };
    // documents: the R chunks are judged like files, the rest stays as it is
    let m = Linter::new(&o, "Rmd");
    let split = |doc: &str| -> (String, Vec<String>) {
        let chunks = jarl_core::rmd::extract_r_chunks(doc);
        let mut rest = doc.to_string();
        for k in chunks.iter().rev() {
            rest.replace_range(k.start_byte..k.start_byte + k.code.len(), "<chunk>");
        }
        (rest, chunks.into_iter().map(|k| k.code.to_string()).collect())
    };
    let judge_doc = |before: &str, after: &str| -> Result<bool, (&'static str, String)> {
        let ((rest, chunks), (rest2, chunks2)) = (split(before), split(after));
        if rest != rest2 || chunks.len() != chunks2.len() {
            return Err(("document", "the text outside the chunks changes".into()));
        }
        let mut some = false;
        for (x, y) in chunks.iter().zip(&chunks2) {
            let Some(rules) = names(x) else {
                if x != y {
                    return Err(("document", "a chunk that is no R code changes".into()));
                }
                continue;
            };
            some |= !rules.is_empty();
            judge(x, y, &rules)?;
        }
        match m.lint(after) {
            Err(e) => Err(("error", e)),
            Ok(v) => match v.first() {
                None => Ok(some),
                Some(d) => Err(("still", format!("{} is reported in line {}", d.message.name, d.location.as_ref().unwrap().row()))),
            },
        }
    };
    let judge_docs = |docs: Vec<String>, ext: &str| {
        for (before, after) in docs.iter().zip(batch(&docs, ext)) {
            c.eval(1);
            match judge_doc(before, &after) {
                Ok(some) => c.nontriv(some as u64),
                Err((sig, e)) => c.violation(&format!("doc-{sig}"), format!("{e}:\n{before}\nbecomes\n{after}"), json!({ "doc": before, "ext": ext })),
            }
        }
    };
    let judge_all = |texts: Vec<String>| {
        let texts: Vec<(String, Vec<String>)> = texts.into_iter().filter_map(|t| names(&t).filter(|n| !n.is_empty() && !n.iter().any(|n| about.contains(n))).map(|n| (t, n))).collect();
        let plain: Vec<String> = texts.iter().map(|t| t.0.clone()).collect();
        if plain.is_empty() {
            return;
        }
        for ((before, rules), after) in texts.iter().zip(batch(&plain, "R")) {
            c.eval(1);
            c.nontriv((rules.len() > 1) as u64);
            if let Err((sig, e)) = judge(before, &after, rules) {
                c.violation(sig, format!("{e}:\n{before}\nbecomes\n{after}"), json!({ "text": before }));
            }
        }
    };
    if let Some(r) = c.replay() {
        if let Some(t) = r["doc"].as_str() {
            judge_docs(vec![t.to_string()], r["ext"].as_str().unwrap());
            c.finish();
        }
        match r["text"].as_str() {
            Some(t) => judge_all(vec![t.to_string()]),
            None => {
                batch(&r["texts"].as_array().unwrap().iter().map(|t| t.as_str().unwrap().to_string()).collect::<Vec<_>>(), r["ext"].as_str().unwrap_or("R"));
            }
        }
        c.finish();
    }
    c.extra("expressions", corpus.len() as u64);
    c.extra("surroundings", contexts.len() as u64);
    // thorough: nested surroundings
    let outer: Vec<&str> = if c.thorough() { ["@"].iter().chain(LINES).copied().collect() } else { vec!["@"] };
    let (nc, nt) = (contexts.len(), corpus.len());
    let total = outer.len() * nc * nt;
    let size = 2000;
    c.par(total.div_ceil(size) as u64, |i| {
        let i = i as usize * size;
        let texts = (i..(i + size).min(total)).map(|k| {
            let (t, ctx, out) = (&corpus[k % nt].text, contexts[k / nt % nc], outer[k / nt / nc]);
            // `@@n` is the slot operator
            let text = if ctx.contains("@@") { plug(ctx, t).0 } else { ctx.replace('@', t) };
            if out == "@" { text } else { out.replace('@', &text) }
        });
        judge_all(texts.filter(|t| parses(t)).collect());
    });
    // Windows line ends, and documents
    const DOCS: &[&str] = &[
        "```{r}\n@\n```\n",
        "---\ntitle: \u{e9}\n---\n\nText `r 1`.\n\n```{r}\nz\n```\n\n```{r, echo = FALSE}\nz\n@\n```\n\nMore.\n",
        "```{r}\n#| label: a\n#| echo: false\n@\n```\n",
        "```{r}\n@\n```\n\n```{python}\nany(is.na(x))\n```\n\n```{r}\n# note\n@\n\n```\n",
        "* item\n\n    ````{r}\n    @\n    ````\n\n",
        "```{r}\nx <- (\n```\n\u{1F600}\n```{r}\n\n\nz; @\n```",
        "```{r}\nif (a) {\n  @\n}\n```\n",
    ];
    let around: Vec<&str> = if c.thorough() { contexts.clone() } else { vec!["@"] };
    let forms = DOCS.len() * 2 + 1;
    let total = around.len() * nt;
    let size = 500;
    c.par((total.div_ceil(size) * forms) as u64, |i| {
        let (form, i) = (i as usize % forms, i as usize / forms * size);
        let texts = (i..(i + size).min(total)).map(|k| {
            let (t, ctx) = (&corpus[k % nt].text, around[k / nt]);
            if ctx.contains("@@") { plug(ctx, t).0 } else { ctx.replace('@', t) }
        });
        let texts: Vec<String> = texts.filter(|t| parses(t) && names(t).is_some_and(|n| !n.iter().any(|n| about.contains(n))) && (form == 0 || !t.contains("jarl-ignore-file"))).collect();
        let crlf = |t: String| t.replace("\r\n", "\n").replace('\n', "\r\n");
        match form {
            0 => judge_all(texts.into_iter().map(crlf).collect()),
            k if k <= DOCS.len() => judge_docs(texts.iter().map(|t| DOCS[k - 1].replace('@', t)).collect(), "Rmd"),
            k => judge_docs(texts.iter().map(|t| crlf(DOCS[k - 1 - DOCS.len()].replace('@', t))).collect(), "qmd"),
        }
    });
    c.finish()
}

// ---------------------------------------------------------------- S04
const DOC_LEAVES: &[Leaf] = &[V(A, 0), Chunk(&[A]), File(A), Ignore(A), V(B, 1), Z, Chunk(&[A, B]), ChunkLine(A), Start(A), End(A), Vt(A), Misnamed, File(B), Note, V(A, 2), Unexplained];
/// What can stand between the R chunks.
const OTHERS: &[&str] = &["", "```{python}\nany(is.na(x))\n```\n", "```{r}\nx <- (any(is.na(x))\n```\n", "```{r}\n```\n", "any(is.na(x))\n\n```\nany(is.na(x))\n```\n"];

/// A document: `at[i]` items are in the i-th chunk; `other` stands before chunk `place`.
fn document(at: &[usize], leaves: &[Leaf], other: &str, place: usize) -> Prog {
    let mut p = Prog::default();
    let mut it = leaves.iter().copied();
    p.lines.extend(["---", "title: t", "---", ""].map(String::from));
    let empty = other.starts_with("```{r}\n```");
    let broken = other.starts_with("```{r}\nx");
    for (k, n) in at.iter().enumerate() {
        if place == k {
            if empty {
                p.chunks.push((p.lines.len(), p.lines.len() + 2));
            }
            p.lines.extend(other.lines().map(String::from));
        }
        p.lines.push("Text.".into());
        p.lines.push("".into());
        let start = p.lines.len();
        p.lines.push(format!("```{{r c{k}}}"));
        p.chunk_code = false;
        p.block(&vec![Shape::Hole; *n], &mut it, 0, false, 0);
        p.lines.push("```".into());
        p.lines.push("".into());
        p.chunks.push((start, p.lines.len()));
        if broken && place == 0 && p.comments.iter().any(|c| matches!(c.1, File(_))) {
            p.open = Some("file comments after a first chunk that is no valid code");
        }
    }
    p
}
fn s04() {
    let c = Check::new("S04", "exploration");
    c.rule("every R Markdown and Quarto document of up to three chunks with code and comments of every kind up to the bound, with chunks of other languages, empty and broken chunks and text between them: what is reported, where, and what is said about the comments is what the documentation says; --fix changes nothing");
    c.assume("not judged because the documentation leaves it open: ranges from one chunk to another, chunk lists after code, file comments after a first chunk that does not parse");
    let o = Opts { select: RULES.into(), ..Opts::default() };
    let ls = [("Rmd", Linter::new(&o, "Rmd")), ("qmd", Linter::new(&o, "qmd"))];
    let judge = |p: &Prog, l: &Linter| -> Option<Result<(), String>> {
        let e = expect(p);
        if let Expect::Open(w) = e {
            c.outcome(w, 1);
            return None;
        }
        let text = p.text();
        Some(match l.lint(&text) {
            Ok(v) if v.iter().any(|d| !d.fix.content.is_empty() || !d.fix.to_skip && d.fix.start != d.fix.end) => Err(format!("a fix is offered in\n{text}")),
            Ok(v) => compare(&text, &v.into_iter().map(|d| (d.location.as_ref().unwrap().row() - 1, d.message.name)).collect::<Vec<_>>(), &e),
            Err(e) => Err(format!("{e} for\n{text}")),
        })
    };
    let scratch = Scratch::new("S04");
    scratch.enter();
    let unchanged = |texts: &[String]| {
        for ext in ["Rmd", "qmd"] {
            for (t, out) in texts.iter().zip(run(&scratch, ext, texts, &o.clone().unsafely())) {
                c.eval(1);
                c.outcome("documents fixed", 1);
                if out.result.is_err() || out.after != *t {
                    c.violation("fixed", format!("--fix changes a document ({ext}): {:?}\n{t}becomes\n{}", out.result.err(), out.after), json!({ "fixed": t }));
                }
            }
        }
    };
    if let Some(r) = c.replay().cloned() {
        if let Some(t) = r["fixed"].as_str() {
            unchanged(&[t.to_string()]);
            c.finish();
        }
        let at: Vec<usize> = serde_json::from_value(r["at"].clone()).unwrap();
        let leaves: Vec<Leaf> = r["leaves"].as_array().unwrap().iter().map(|k| DOC_LEAVES[k.as_u64().unwrap() as usize]).collect();
        let p = document(&at, &leaves, OTHERS[r["other"].as_u64().unwrap() as usize], r["place"].as_u64().unwrap() as usize);
        for (_, l) in &ls {
            if let Some(Err(e)) = judge(&p, l) {
                c.violation("document", e, r.clone());
            }
        }
        c.finish();
    }
    // items, kinds of items, other chunks
    let sizes: &[(usize, usize, usize)] = if c.thorough() { &[(1, 16, 5), (2, 16, 5), (3, 16, 5), (4, 13, 1), (5, 6, 5)] } else { &[(1, 16, 5), (2, 16, 5), (3, 13, 3), (4, 7, 1)] };
    for &(n, k, others) in sizes {
        let mut ats: Vec<Vec<usize>> = vec![vec![n]];
        for a in 0..=n {
            ats.push(vec![a, n - a]);
            for b in 0..=n - a {
                ats.push(vec![a, b, n - a - b]);
            }
        }
        let mut docs = vec![];
        for at in ats {
            docs.push((at.clone(), 0, 0));
            for other in 1..others {
                for place in 0..at.len() {
                    docs.push((at.clone(), other, place));
                }
            }
        }
        c.extra(&format!("documents with {n} items"), docs.len() as u64);
        let words = (k as u64).pow(n as u32);
        c.par(docs.len() as u64 * words, |i| {
            let (at, other, place) = &docs[(i / words) as usize];
            let mut w = i % words;
            let idx: Vec<usize> = (0..n)
                .map(|_| {
                    let d = (w % k as u64) as usize;
                    w /= k as u64;
                    d
                })
                .collect();
            let leaves: Vec<Leaf> = idx.iter().map(|d| DOC_LEAVES[*d]).collect();
            let p = document(at, &leaves, OTHERS[*other], *place);
            for (ext, l) in &ls {
                if let Some(r) = judge(&p, l) {
                    c.eval(1);
                    c.nontriv(leaves.iter().any(|l| !code(*l)) as u64);
                    if let Err(e) = r {
                        c.violation(e.split(" in line").next().unwrap().split(" (").next().unwrap(), format!("{ext}: {e}"), json!({"at": at, "leaves": idx, "other": other, "place": place}));
                    }
                }
            }
        });
        if n <= 2 {
            c.par(docs.len() as u64, |i| {
                let (at, other, place) = &docs[i as usize];
                let texts: Vec<String> = (0..words).map(|w| document(at, &(0..n).map(|j| DOC_LEAVES[(w / (k as u64).pow(j as u32)) as usize % k]).collect::<Vec<_>>(), OTHERS[*other], *place).text()).collect();
                unchanged(&texts);
            });
        }
    }
    c.finish()
}
