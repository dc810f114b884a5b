//! C39: a document is linted as the R code of its chunks.

use crate::r#gen::{Gen, parses};
use crate::sut;
use jarl_core::config::Config;
use jarl_core::diagnostic::Diagnostic;
use kit::{Ctx, Rng};
use serde_json::json;

/// A configuration as in a jarl.toml.
fn config_of(toml: &str, min: Option<&str>) -> Config {
    let dir = sut::scratch();
    let f = dir.path().join("jarl.toml");
    std::fs::write(&f, toml).expect("a scratch file");
    let s = jarl_core::toml::parse_jarl_toml(&f).expect("a jarl.toml").into_settings(dir.path()).expect("a jarl.toml");
    let mut a = sut::args();
    a.min_r_version = min.map(String::from);
    sut::config_with(&a, Some(&s))
}

/// A part of a document: what is before the code, the code, what is after it; and whether jarl is to look at it.
#[derive(Clone, Debug, Hash)]
struct Part {
    before: String,
    code: String,
    after: String,
    r: bool,
}

#[derive(Clone, Debug, Hash)]
struct Doc {
    parts: Vec<Part>,
    name: &'static str,
    crlf: bool,
    /// Without the newline at the end.
    open: bool,
}

impl Doc {
    /// The text, and where the chunks are, with their code as a file of its own.
    fn text(&self) -> (String, Vec<(usize, String)>) {
        let end = |s: &str| if self.crlf { s.replace("\r\n", "\n").replace('\n', "\r\n") } else { s.to_string() };
        let (mut t, mut chunks) = (String::new(), vec![]);
        for p in &self.parts {
            t.push_str(&end(&p.before));
            if p.r {
                chunks.push((t.len(), end(&p.code)));
            }
            t.push_str(&end(&p.code));
            t.push_str(&end(&p.after));
        }
        if self.open {
            let n = t.trim_end_matches(['\n', '\r']).len();
            t.truncate(n);
        }
        (t, chunks)
    }
}

/// What tells diagnostics apart.
type D = ((usize, usize), String, String, Option<String>, (usize, usize));

fn told(d: &Diagnostic, text: &str, at: usize) -> D {
    let (s, e) = sut::range(d);
    let (s, e) = (s + at, e + at);
    let line = text[..s].matches('\n').count() + 1;
    let column = text[..s].rfind('\n').map_or(s, |n| s - n - 1);
    ((s, e), d.message.name.clone(), d.message.body.clone(), d.message.suggestion.clone(), (line, column))
}

fn judge(doc: &Doc, cfg: &Config) -> Result<(usize, usize), String> {
    let (text, chunks) = doc.text();
    let mut want: Vec<D> = vec![];
    let mut skipped = 0;
    for (at, code) in &chunks {
        match sut::lint_as(code, "chunk.R", cfg) {
            Ok(ds) => want.extend(ds.iter().map(|d| told(d, &text, *at))),
            // the linter stumbles over it: that is C20's
            Err(_) if parses(code) => return Ok((0, 0)),
            Err(_) => skipped += 1,
        }
    }
    let got = sut::lint_as(&text, doc.name, cfg).map_err(|e| format!("error: {e}"))?;
    if let Some(d) = got.iter().find(|d| sut::has_fix(d)) {
        return Err(format!("fix: {} comes with a fix", d.message.name));
    }
    let mut seen: Vec<D> = got.iter().map(|d| told(d, &text, 0)).collect();
    want.sort();
    seen.sort();
    if let Some(d) = want.iter().find(|d| !seen.contains(d)) {
        return Err(format!("missing: {} at {}..{} is reported in the chunk alone, but not in the document", d.1, d.0.0, d.0.1));
    }
    if let Some(d) = seen.iter().find(|d| !want.contains(d)) {
        return Err(format!("added: {} at {}..{} is not reported in a chunk alone", d.1, d.0.0, d.0.1));
    }
    if want.len() != seen.len() {
        return Err(format!("number: {} diagnostics instead of {}", seen.len(), want.len()));
    }
    for d in &got {
        // the place as line and column, too
        let t = told(d, &text, 0);
        let early = text.starts_with(['\n', '\r']);
        if let Some(l) = d.location
            && (l.row(), l.column()) != t.4
            && !early
        {
            let column = text[..t.0.0].rfind('\n').map_or(t.0.0, |n| text[n + 1..t.0.0].chars().count());
            if (l.row(), l.column()) != (t.4.0, column) {
                return Err(format!("place: {} is shown at {}:{} instead of {:?}", t.1, l.row(), l.column(), t.4));
            }
        }
    }
    Ok((want.len(), skipped))
}

const PROSE: &[&str] = &[
    "Some text with `any(is.na(x))` inline, and `r any(is.na(x))`.\n",
    "# Título 🌍\n\n",
    "any(is.na(x))\n",
    "<!-- ```{r} -->\n",
    "- a list\n- x = 1\n",
    "    any(is.na(x))\n",
    "| a | b |\n|---|---|\n| `x == NA` | 2 |\n",
    "$$x == y$$\n",
    "::: {.callout}\nx == NA\n:::\n",
    "{r}\n",
    "``{r} x == NA``\n",
    "\"quotes' and (brackets {\n",
    "\n\n",
    "",
    "",
];

/// Blocks that are no R chunks: only their opening line says so.
const OTHER: &[(&str, &str)] = &[
    ("```{python}", "```"),
    ("```{python, r}", "```"),
    ("```{Rcpp}", "```"),
    ("```{ruby}", "```"),
    ("```{rust r}", "```"),
    ("```{.r}", "```"),
    ("```r", "```"),
    ("```R", "```"),
    ("```{{r}}", "```"),
    ("```", "```"),
    ("````{bash}", "````"),
    ("~~~{r}", "~~~"),
    ("``{r}", "``"),
    ("---", "---"),
    ("<!--", "-->"),
];

const HEADS: &[&str] = &[
    "{r}", "{r}", "{r}", "{R}", "{r label}", "{r, echo=FALSE}", "{r label, fig.width = 3, fig.cap = \"a, b\"}", "{r été}", "{r eval=FALSE}", "{r\tlabel}", "{r,}", "{r }", "{r setup, include = FALSE}", "{r, x == NA}",
];

fn program(g: &Gen, rng: &mut Rng, cfg: &Config) -> String {
    let mut p = if rng.chance(1, 3) { g.snip(rng).text.clone() } else { g.program(rng) };
    if rng.chance(1, 5) && parses(&p) {
        p = crate::p_edit::with_comments(rng, &p, cfg);
    }
    match rng.below(12) {
        0 => p = format!("# {}\n{p}", rng.pick(&["été 🌍", "a comment"]).repeat(rng.range(1, 30))),
        1 => p = format!("#| label: a\n#| echo: false\n{p}"),
        2 => p = format!("#| fig-cap: |\n#|   any(is.na(x))\n\n{p}"),
        3 => p = format!("\n\n{p}"),
        _ => {}
    }
    p
}

fn part(g: &Gen, rng: &mut Rng, cfg: &Config) -> Part {
    let mut code = program(g, rng, cfg).replace("\r\n", "\n").trim_end_matches('\n').to_string() + "\n";
    let mut before = rng.pick(PROSE).to_string();
    if rng.chance(1, 3) {
        before.push_str(rng.pick(PROSE));
    }
    if !before.is_empty() && !before.ends_with('\n') {
        before.push('\n');
    }
    let after = if rng.chance(1, 2) { "\n" } else { "" };
    match rng.below(10) {
        0 | 1 => {
            // what is not to be looked at
            let (open, close) = *rng.pick(OTHER);
            let code = if code.contains("```") || code.contains(close) { "any(is.na(x))\n".into() } else { code };
            return Part { before: format!("{before}{open}\n"), code, after: format!("{close}\n{after}"), r: false };
        }
        2 => {
            // what is no valid R
            let at = code.char_indices().map(|c| c.0).nth(rng.below(code.chars().count())).unwrap_or(0);
            code.insert_str(at, *rng.pick(&["(", ")", "}", "{", "\"", "else", "\\", "`", "x y", "<<ref>>", "..."]));
        }
        3 => code = rng.pick(&["", "\n", "# nothing\n", "NULL\n"]).to_string(),
        _ => {}
    }
    let fence = *rng.pick(&["```", "```", "```", "````", "`````"]);
    if code.lines().any(|l| l.trim() == fence) {
        code = "any(is.na(x))\n".into();
    }
    let by = *rng.pick(&["", "", "", "", "", "  ", "\t", "      "]);
    let indented: String = code.lines().map(|l| if l.is_empty() { "\n".into() } else { format!("{by}{l}\n") }).collect();
    let space = *rng.pick(&["", "", "", " ", "\t"]);
    Part { before: format!("{before}{by}{fence}{}{space}\n", rng.pick(HEADS)), code: indented, after: format!("{by}{fence}{space}\n{after}"), r: true }
}

pub fn run_c39(ctx: &mut Ctx) {
    ctx.rule = "a document with at least one diagnostic in its chunks, by text".into();
    let g = Gen::load();
    let mut cfgs: Vec<_> = ["ALL", "ALL", "READ,CORR", "PERF,SUSP"].iter().map(|s| sut::config(s)).collect();
    cfgs.push(config_of("[lint]\nselect = ['ALL']\n[lint.assignment]\noperator = '='\n[lint.undesirable_function]\nfunctions = ['f', 'any', 'c', 'list']\n", None));
    cfgs.push(config_of("[lint]\nselect = ['ALL']\nunfixable = ['any_is_na']\n[lint.duplicated_arguments]\nskipped-functions = ['f', 'list']\n[lint.implicit_assignment]\nskipped-functions = ['f', 'if']\n[lint.unreachable_code]\nstopping-functions = ['g', 'foo', 'bar']\n", Some("3.5")));
    cfgs.push(config_of("[lint]\nextend-select = ['SUSP']\nignore = ['READ']\n", Some("4.1.0")));
    let mut rng = ctx.rng.fork();
    while ctx.time_left(1.0) {
        let cfg = rng.pick(&cfgs);
        let mut parts: Vec<Part> = (0..*rng.pick(&[1, 1, 2, 3, 4, 6])).map(|_| part(&g, &mut rng, cfg)).collect();
        if rng.chance(1, 3) {
            parts[0].before.insert_str(0, rng.pick(&["---\ntitle: \"Été 🌍\"\n---\n\n", "---\nknitr:\n  opts_chunk: \n    echo: false\n---\n", "\u{feff}# BOM\n", "\n"]));
        }
        let doc = Doc { parts, name: *rng.pick(&["file.Rmd", "file.qmd", "file.rmd", "é b.Qmd"]), crlf: rng.chance(1, 8), open: rng.chance(1, 6) };
        let (text, chunks) = doc.text();
        ctx.case(text.clone());
        match judge(&doc, cfg) {
            Ok((n, skipped)) => {
                let class = match (doc.crlf, chunks.len()) {
                    (true, _) => "document with CRLF",
                    (_, 0) => "document without R",
                    (_, 1) => "document with one chunk",
                    _ => "document with several chunks",
                };
                ctx.count(class, &text, n > 0);
                ctx.bump("chunks", chunks.len() as u64);
                ctx.bump("chunks that are no valid R", skipped as u64);
                ctx.bump("blocks of something else", doc.parts.iter().filter(|p| !p.r).count() as u64);
                ctx.bump("diagnostics", n as u64);
            }
            Err(e) => {
                let kind = e.split(':').next().unwrap().to_string();
                let same = |d: &Doc| judge(d, cfg).is_err_and(|e| e.starts_with(&format!("{kind}:")));
                let mut small = doc.clone();
                small.parts = kit::shrink_list(&small.parts, |p| same(&Doc { parts: p.to_vec(), ..doc.clone() }));
                for i in 0..small.parts.len() {
                    let lines: Vec<String> = small.parts[i].code.split_inclusive('\n').map(String::from).collect();
                    let with = |c: &[String]| {
                        let mut d = small.clone();
                        d.parts[i].code = c.concat();
                        d
                    };
                    let code = kit::shrink_list(&lines, |c| same(&with(c))).concat();
                    small.parts[i].code = code;
                }
                let e = judge(&small, cfg).err().unwrap_or(e);
                let t = small.text().0;
                ctx.fail(&t, format!("{e}\n--- {}\n{t}", small.name), json!({"text": t, "name": small.name, "original": text}));
            }
        }
    }
}
