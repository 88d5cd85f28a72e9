//! Stand-in for annotate-snippets 0.11: messages with one snippet and one
//! annotation, in the layout the real renderer gives them.
use std::fmt::{self, Display};
use std::ops::Range;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Level { Error, Warning, Info, Note, Help }

impl Level {
    pub fn title<'a>(self, title: &'a str) -> Message<'a> {
        Message { level: self, title, id: None, snippets: vec![], footer: vec![] }
    }
    pub fn span<'a>(self, range: Range<usize>) -> Annotation<'a> {
        Annotation { level: self, range, label: None }
    }
    fn name(self) -> &'static str {
        match self {
            Level::Error => "error",
            Level::Warning => "warning",
            Level::Info => "info",
            Level::Note => "note",
            Level::Help => "help",
        }
    }
}

#[derive(Debug)]
pub struct Message<'a> { level: Level, id: Option<&'a str>, title: &'a str, snippets: Vec<Snippet<'a>>, footer: Vec<Message<'a>> }
impl<'a> Message<'a> {
    pub fn id(mut self, id: &'a str) -> Self { self.id = Some(id); self }
    pub fn snippet(mut self, s: Snippet<'a>) -> Self { self.snippets.push(s); self }
    pub fn snippets(mut self, s: impl IntoIterator<Item = Snippet<'a>>) -> Self { self.snippets.extend(s); self }
    pub fn footer(mut self, f: Message<'a>) -> Self { self.footer.push(f); self }
    pub fn footers(mut self, f: impl IntoIterator<Item = Message<'a>>) -> Self { self.footer.extend(f); self }
}

#[derive(Debug)]
pub struct Snippet<'a> { source: &'a str, origin: Option<&'a str>, line_start: usize, annotations: Vec<Annotation<'a>>, fold: bool }
impl<'a> Snippet<'a> {
    pub fn source(source: &'a str) -> Self { Snippet { source, origin: None, line_start: 1, annotations: vec![], fold: false } }
    pub fn line_start(mut self, n: usize) -> Self { self.line_start = n; self }
    pub fn origin(mut self, o: &'a str) -> Self { self.origin = Some(o); self }
    pub fn annotation(mut self, a: Annotation<'a>) -> Self { self.annotations.push(a); self }
    pub fn annotations(mut self, a: impl IntoIterator<Item = Annotation<'a>>) -> Self { self.annotations.extend(a); self }
    pub fn fold(mut self, f: bool) -> Self { self.fold = f; self }
}

#[derive(Debug, Clone)]
pub struct Annotation<'a> { level: Level, range: Range<usize>, label: Option<&'a str> }
impl<'a> Annotation<'a> {
    pub fn label(mut self, l: &'a str) -> Self { self.label = Some(l); self }
}

#[derive(Clone, Copy, Debug)]
pub struct Renderer { styled: bool }
impl Renderer {
    pub const fn plain() -> Self { Renderer { styled: false } }
    pub const fn styled() -> Self { Renderer { styled: true } }
    pub const fn term_width(self, _: usize) -> Self { self }
    pub fn render<'a>(&'a self, message: Message<'a>) -> impl Display + 'a { Rendered { message, styled: self.styled } }
}

struct Rendered<'a> { message: Message<'a>, styled: bool }

/// (number, text without its line ending, start offset, end offset incl. line ending)
fn lines(source: &str) -> Vec<(usize, &str, usize, usize)> {
    let mut out = vec![];
    let mut at = 0;
    for (n, l) in source.split_inclusive('\n').enumerate() {
        let t = l.strip_suffix('\n').unwrap_or(l);
        let t = t.strip_suffix('\r').unwrap_or(t);
        out.push((n, t, at, at + l.len()));
        at += l.len();
    }
    if source.is_empty() || source.ends_with('\n') { out.push((out.len(), "", at, at)) }
    out
}

fn width(s: &str) -> usize { s.chars().count() }

impl Display for Rendered<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let m = &self.message;
        let (b, y, r) = if self.styled { ("\x1b[1m", "\x1b[1m\x1b[33m", "\x1b[0m") } else { ("", "", "") };
        write!(f, "{y}{}", m.level.name())?;
        if let Some(id) = m.id { write!(f, "[{id}]")? }
        write!(f, "{r}: {b}{}{r}", m.title)?;
        let mut pad = 0;
        for s in &m.snippets {
            let ls = lines(s.source);
            let last = s.annotations.iter().map(|a| locate(&ls, a.range.end).0).max().unwrap_or(ls.len() - 1);
            pad = pad.max((last + s.line_start).to_string().len());
        }
        for s in &m.snippets { snippet(f, s, pad)? }
        for foot in &m.footer {
            write!(f, "\n{} = {}: ", " ".repeat(pad), foot.level.name())?;
            for (i, l) in foot.title.split('\n').enumerate() {
                if i > 0 { write!(f, "\n{}   {}", " ".repeat(pad), " ".repeat(foot.level.name().len() + 2))? }
                write!(f, "{l}")?;
            }
        }
        Ok(())
    }
}

/// line index and column (in characters) of a byte offset
fn locate(ls: &[(usize, &str, usize, usize)], at: usize) -> (usize, usize) {
    for (i, (_, t, s, e)) in ls.iter().enumerate() {
        if at < *e || i + 1 == ls.len() {
            let col = t.char_indices().take_while(|(k, _)| s + k < at).count();
            return (i, col + at.saturating_sub(s + t.len()).min(1) * usize::from(at > s + t.len()));
        }
    }
    (0, 0)
}

fn snippet(f: &mut fmt::Formatter<'_>, s: &Snippet<'_>, pad: usize) -> fmt::Result {
    let ls = lines(s.source);
    let sp = " ".repeat(pad);
    for a in &s.annotations {
        assert!(a.range.start <= a.range.end && a.range.end <= s.source.len() + 1,
            "SourceAnnotation range `{:?}` is beyond the end of buffer `{}`", a.range, s.source.len());
        let (l0, c0) = locate(&ls, a.range.start);
        let (l1, c1) = if a.range.end > a.range.start {
            // the end is exclusive: find the last character covered
            let mut e = a.range.end - 1;
            while e > 0 && !s.source.is_char_boundary(e) { e -= 1 }
            let (l, c) = locate(&ls, e);
            (l, c + 1)
        } else { (l0, c0 + 1) };
        let label = a.label.unwrap_or("");
        let label = if label.is_empty() { String::new() } else { format!(" {label}") };
        if let Some(o) = s.origin { write!(f, "\n{sp}--> {o}:{}:{}", l0 + s.line_start, c0 + 1)? }
        write!(f, "\n{sp} |")?;
        let no = |i: usize| format!("{:>pad$}", i + s.line_start);
        if l0 == l1 {
            write!(f, "\n{} | {}", no(l0), ls[l0].1)?;
            write!(f, "\n{sp} | {}{}{label}", " ".repeat(c0), "-".repeat((c1.max(c0 + 1)) - c0))?;
        } else {
            let text = |i: usize| ls[i].1;
            let bar = |f: &mut fmt::Formatter<'_>, i: usize, mark: &str| {
                if text(i).is_empty() { write!(f, "\n{} | {mark}", no(i)) } else { write!(f, "\n{} | {mark} {}", no(i), text(i)) }
            };
            if text(l0).chars().take(c0).all(char::is_whitespace) {
                bar(f, l0, "/")?;
            } else {
                write!(f, "\n{} |   {}", no(l0), text(l0))?;
                write!(f, "\n{sp} |  {}-", "_".repeat(c0 + 1))?;
            }
            let mid = l1 - l0 - 1;
            if s.fold && mid > 3 {
                bar(f, l0 + 1, "|")?;
                write!(f, "\n...{sp}|")?;
                bar(f, l1 - 1, "|")?;
            } else {
                for i in l0 + 1..l1 { bar(f, i, "|")? }
            }
            bar(f, l1, "|")?;
            write!(f, "\n{sp} | |{}-{label}", "_".repeat(c1))?;
        }
        write!(f, "\n{sp} |")?;
        let _ = (a.level, width);
    }
    Ok(())
}
