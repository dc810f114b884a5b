//! A stand-in for `annotate-snippets`: one source with annotations, rendered in rustc's style.
use std::fmt;
use std::ops::Range;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Level { Error, Warning, Info, Note, Help }
impl Level {
    pub fn title(self, title: &str) -> Message<'_> { Message { level: self, id: None, title, snippets: vec![], footer: vec![] } }
    pub fn span<'a>(self, span: Range<usize>) -> Annotation<'a> { Annotation { range: span, label: None, level: self } }
    fn name(self) -> &'static str { match self { Self::Error => "error", Self::Warning => "warning", Self::Info => "info", Self::Note => "note", Self::Help => "help" } }
    fn mark(self) -> char { match self { Self::Error | Self::Help => '^', _ => '-' } }
}
#[derive(Debug)]
pub struct Message<'a> { level: Level, id: Option<&'a str>, title: &'a str, snippets: Vec<Snippet<'a>>, footer: Vec<Message<'a>> }
impl<'a> Message<'a> {
    pub fn id(mut self, id: &'a str) -> Self { self.id = Some(id); self }
    pub fn snippet(mut self, s: Snippet<'a>) -> Self { self.snippets.push(s); self }
    pub fn snippets(mut self, s: impl IntoIterator<Item = Snippet<'a>>) -> Self { self.snippets.extend(s); self }
    pub fn footer(mut self, m: Message<'a>) -> Self { self.footer.push(m); self }
    pub fn footers(mut self, m: impl IntoIterator<Item = Message<'a>>) -> Self { self.footer.extend(m); self }
}
#[derive(Debug)]
pub struct Snippet<'a> { origin: Option<&'a str>, line_start: usize, source: &'a str, annotations: Vec<Annotation<'a>>, fold: bool }
impl<'a> Snippet<'a> {
    pub fn source(source: &'a str) -> Self { Self { origin: None, line_start: 1, source, annotations: vec![], fold: false } }
    pub fn line_start(mut self, n: usize) -> Self { self.line_start = n; self }
    pub fn origin(mut self, o: &'a str) -> Self { self.origin = Some(o); self }
    pub fn annotation(mut self, a: Annotation<'a>) -> Self { self.annotations.push(a); self }
    pub fn annotations(mut self, a: impl IntoIterator<Item = Annotation<'a>>) -> Self { self.annotations.extend(a); self }
    pub fn fold(mut self, f: bool) -> Self { self.fold = f; self }
}
#[derive(Debug)]
pub struct Annotation<'a> { range: Range<usize>, label: Option<&'a str>, level: Level }
impl<'a> Annotation<'a> { pub fn label(mut self, l: &'a str) -> Self { self.label = Some(l); self } }
#[derive(Clone, Debug)]
pub struct Renderer { styled: bool }
impl Renderer {
    pub const fn plain() -> Self { Self { styled: false } }
    pub const fn styled() -> Self { Self { styled: true } }
    pub fn render<'a>(&'a self, m: Message<'a>) -> impl fmt::Display + 'a { Rendered { m, styled: self.styled } }
}
struct Rendered<'a> { m: Message<'a>, styled: bool }
impl fmt::Display for Rendered<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let m = &self.m;
        let (b, r) = if self.styled { ("\x1b[1m\x1b[33m", "\x1b[0m") } else { ("", "") };
        let mut out: Vec<String> = vec![];
        match m.id { Some(id) => out.push(format!("{b}{}[{id}]{r}: {}", m.level.name(), m.title)), None => out.push(format!("{b}{}{r}: {}", m.level.name(), m.title)) }
        let mut width = 1;
        for s in &m.snippets { width = width.max(last_line(s).to_string().len()); }
        for s in &m.snippets { snippet(s, width, &mut out); }
        let pad = " ".repeat(width);
        for n in &m.footer {
            for (i, l) in n.title.split('\n').enumerate() {
                if i == 0 { out.push(format!("{pad} = {b}{}{r}: {l}", n.level.name())); } else { out.push(format!("{pad}   {}  {l}", " ".repeat(n.level.name().len()))); }
            }
        }
        f.write_str(&out.join("\n"))
    }
}
fn lines(src: &str) -> Vec<(usize, &str)> {
    let mut at = 0;
    let mut v: Vec<(usize, &str)> = src.split_inclusive('\n').map(|l| { let s = at; at += l.len(); (s, l.strip_suffix('\n').map_or(l, |l| l.strip_suffix('\r').unwrap_or(l))) }).collect();
    if v.is_empty() { v.push((0, "")); }
    v
}
fn line_of(v: &[(usize, &str)], o: usize) -> usize { v.partition_point(|l| l.0 <= o).saturating_sub(1) }
fn end_line(v: &[(usize, &str)], a: &Annotation<'_>) -> usize { line_of(v, a.range.end.saturating_sub(1).max(a.range.start)) }
fn last_line(s: &Snippet<'_>) -> usize { let v = lines(s.source); s.annotations.iter().map(|a| end_line(&v, a)).max().unwrap_or(0) + s.line_start }
fn cols(l: &str, upto: usize) -> usize { l.char_indices().take_while(|(i, _)| *i < upto).map(|(_, c)| if c == '\t' { 4 } else { char_width(c) }).sum() }
fn char_width(c: char) -> usize { let u = c as u32; if c.is_control() || matches!(u, 0x300..=0x36f | 0x200b..=0x200d | 0xfe0f) { 0 } else if matches!(u, 0x1100..=0x115f | 0x2e80..=0xa4cf | 0xac00..=0xd7a3 | 0xf900..=0xfaff | 0xfe30..=0xfe6f | 0xff00..=0xff60 | 0xffe0..=0xffe6 | 0x1f300..=0x1faff) { 2 } else { 1 } }

fn row(head: String, text: String) -> String { if text.is_empty() { head.trim_end().to_string() } else { head + &text } }
fn snippet(s: &Snippet<'_>, width: usize, out: &mut Vec<String>) {
    let v = lines(s.source);
    let pad = " ".repeat(width);
    if let Some(o) = s.origin {
        match s.annotations.first() {
            Some(a) => {
                assert!(a.range.start <= a.range.end && a.range.end <= s.source.len() + 1, "SourceAnnotation range `{:?}` is beyond the end of buffer `{}`", (a.range.start, a.range.end), s.source.len());
                let l = line_of(&v, a.range.start);
                let col = v[l].1.char_indices().take_while(|(i, _)| *i < a.range.start - v[l].0).count();
                out.push(format!("{pad}--> {o}:{}:{}", l + s.line_start, col + 1));
            }
            None => out.push(format!("{pad}--> {o}")),
        }
    }
    out.push(format!("{pad} |"));
    for a in &s.annotations {
        let (l0, l1) = (line_of(&v, a.range.start), end_line(&v, a));
        let text = |l: usize| v[l].1.replace('\t', "    ");
        let num = |l: usize| format!("{:>width$}", l + s.line_start);
        let label = a.label.filter(|l| !l.is_empty());
        let mark = a.level.mark();
        let put_label = |out: &mut Vec<String>, head: String| {
            match label {
                None => out.push(head),
                Some(l) => {
                    let col = head.chars().count() + 1;
                    for (i, part) in l.split('\n').enumerate() { if i == 0 { out.push(format!("{head} {part}")); } else { out.push(format!("{pad} | {}{part}", " ".repeat(col.saturating_sub(width + 3)))); } }
                }
            }
        };
        if l0 == l1 {
            out.push(row(format!("{} | ", num(l0)), text(l0)));
            let c0 = cols(v[l0].1, a.range.start - v[l0].0);
            let c1 = cols(v[l0].1, a.range.end - v[l0].0).max(c0 + 1);
            put_label(out, format!("{pad} | {}{}", " ".repeat(c0), mark.to_string().repeat(c1 - c0)));
        } else {
            let c0 = cols(v[l0].1, a.range.start - v[l0].0);
            let first = v[l0].1[..(a.range.start - v[l0].0).min(v[l0].1.len())].chars().all(|c| c.is_whitespace());
            if first { out.push(row(format!("{} | / ", num(l0)), text(l0))); } else {
                out.push(row(format!("{} |   ", num(l0)), text(l0)));
                out.push(format!("{pad} |  _{}{mark}", "_".repeat(c0)));
            }
            let n = l1 - l0 + 1;
            for l in l0 + 1..=l1 {
                if s.fold && n > 5 && l > l0 + 1 && l < l1 - 1 {
                    if l == l0 + 2 { out.push(format!("...{} |", " ".repeat(width.saturating_sub(1)))); }
                    continue;
                }
                out.push(row(format!("{} | | ", num(l)), text(l)));
            }
            let c1 = cols(v[l1].1, a.range.end - v[l1].0).max(1);
            put_label(out, format!("{pad} | |{}{mark}", "_".repeat(c1)));
        }
    }
    out.push(format!("{pad} |"));
}
