//! C05: reading the R version of a package's DESCRIPTION.
//!
//! The generator writes DESCRIPTION files whose R requirements it knows (ground truth), in every
//! layout DCF allows; arbitrary text is only required not to crash.

use kit::{Ctx, Rng, guard, odd_char, shrink_list};
use serde_json::json;
use sut_core::description::Description;

#[derive(Clone, Debug)]
struct Dep {
    text: String,
    version: Option<String>,
}

fn version(r: &mut Rng) -> String {
    match r.below(8) {
        0 => format!("{}", r.range(1, 5)),
        1 => format!("{}.{}", r.range(0, 5), r.range(0, 12)),
        2 => format!("{}.{}.{}.{}", r.range(0, 5), r.range(0, 9), r.range(0, 9), r.range(0, 9000)),
        3 => format!("{}.{}.{}", r.range(10, 99), r.range(0, 100), r.range(0, 999)),
        _ => format!("{}.{}.{}", r.range(2, 5), r.range(0, 10), r.range(0, 4)),
    }
}

fn gap(r: &mut Rng) -> &'static str {
    r.pick(&["", "", " ", " ", "  ", "\t"])
}

fn dep(r: &mut Rng, what: usize) -> Dep {
    let v = version(r);
    match what {
        // R itself
        0 => {
            let op = *r.pick(&[">=", ">=", ">=", ">", "=="]);
            Dep { text: format!("R{}({}{op}{}{v}{})", gap(r), gap(r), gap(r), gap(r)), version: Some(v) }
        }
        1 => {
            let op = *r.pick(&["<=", "<", "!="]);
            Dep { text: format!("R{}({}{op}{}{v}{})", gap(r), gap(r), gap(r), gap(r)), version: None }
        }
        2 => Dep { text: "R".into(), version: None },
        // other packages, several of which start with R
        3 => Dep {
            text: (*r.pick(&["R6", "Rcpp", "R.utils", "RSQLite", "r", "methods", "stats", "dplyr", "RR", "xR", "data.table"])).to_string(),
            version: None,
        },
        _ => {
            let n = *r.pick(&["R6", "Rcpp", "R.utils", "RSQLite", "rlang", "RCurl", "r", "xR", "data.table", "BioR"]);
            Dep { text: format!("{n}{}(>={}{v})", gap(r), gap(r)), version: None }
        }
    }
}

#[derive(Clone, Debug)]
struct Field {
    name: String,
    lines: Vec<String>,
}

impl Field {
    fn render(&self, eol: &str) -> String {
        let mut s = format!("{}:", self.name);
        for l in &self.lines {
            s.push_str(l);
            s.push_str(eol);
        }
        s
    }
}

fn list_field(r: &mut Rng, name: &str, deps: &[Dep]) -> Field {
    // each entry: on the same line or folded; a fold may also fall inside an entry
    let mut lines: Vec<String> = vec![];
    let mut cur = r.pick(&[" ", "  ", "", "\t"]).to_string();
    if !deps.is_empty() && r.chance(1, 3) {
        lines.push(r.pick(&["", " "]).to_string());
        cur = r.pick(&["    ", " ", "\t", "        "]).to_string();
    }
    for (i, d) in deps.iter().enumerate() {
        let mut text = d.text.clone();
        if r.chance(1, 10)
            && let Some(p) = text.find('(')
        {
            let tail = text.split_off(p);
            cur.push_str(&text);
            lines.push(std::mem::replace(&mut cur, "    ".into()));
            text = tail;
        }
        cur.push_str(&text);
        if i + 1 < deps.len() {
            cur.push_str(r.pick(&[",", ",", " ,"]));
            if r.chance(1, 2) {
                if r.chance(1, 5) {
                    cur.push_str(r.pick(&[" ", "\t"]));
                }
                lines.push(std::mem::replace(&mut cur, r.pick(&["    ", " ", "\t", "  \t"]).to_string()));
            } else {
                cur.push_str(r.pick(&["", " ", "  "]));
            }
        }
    }
    lines.push(cur);
    Field { name: name.into(), lines }
}

fn other_field(r: &mut Rng) -> Field {
    let decoy = format!("R (>= {})", version(r));
    match r.below(7) {
        0 => Field { name: "Package".into(), lines: vec![" mypackage".into()] },
        1 => Field { name: "Title".into(), lines: vec![format!(" A package: needs {decoy}")] },
        2 => Field {
            name: "Description".into(),
            lines: vec![" Text that goes on.".into(), format!("    Depends: {decoy}"), "  Imports: é🌍,".into(), format!("\t{decoy}")],
        },
        3 => {
            let name = *r.pick(&["Imports", "Suggests", "LinkingTo", "Enhances", "SystemRequirements"]);
            list_field(r, name, &[Dep { text: decoy, version: None }])
        }
        4 => Field { name: ["DependsNote", "RDepends", "Depends.old", "depends", "SuggestsDepends"][r.below(5)].into(), lines: vec![format!(" {decoy}")] },
        5 => Field { name: "URL".into(), lines: vec![" https://example.org, https://r.org/(>= 4)".into()] },
        _ => Field { name: "Authors@R".into(), lines: vec![" c(person(\"A\",".into(), "    \"B\", role = c(\"aut\")))".into()] },
    }
}

fn observe(text: &str) -> Result<Vec<String>, String> {
    match guard(|| Description::get_depend_r_version(text)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(p),
    }
}

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "DESCRIPTION files built from a known list of R requirements: 0-4 requirements on R with each operator and spacing, mixed with packages whose names start with R, folded over lines in each DCF layout, LF or CRLF, with the same text as decoy in other fields; plus arbitrary text (only totality); non-trivial = a well-formed file with a Depends field; distinct by file text".into();
    ctx.assumptions = vec!["well-formed DCF with at most one Depends field and no blank line inside the record; the exact answer is only compared on these".into()];
    while ctx.time_left(1.0) {
        let mut r = ctx.rng.fork();
        let eol = *r.pick(&["\n", "\n", "\n", "\r\n"]);
        let deps: Vec<Dep> = (0..r.below(6))
            .map(|_| {
                let w = *r.pick(&[0, 0, 0, 1, 2, 3, 3, 4, 4]);
                dep(&mut r, w)
            })
            .collect();
        let want: Vec<String> = deps.iter().filter_map(|d| d.version.clone()).collect();
        let mut fields: Vec<Field> = vec![];
        for _ in 0..r.below(4) {
            fields.push(other_field(&mut r));
        }
        let has_depends = !deps.is_empty();
        if has_depends {
            fields.push(list_field(&mut r, "Depends", &deps));
        }
        for _ in 0..r.below(3) {
            fields.push(other_field(&mut r));
        }
        let lead = *r.pick(&["", "", "\n"]);
        let build = |fs: &[Field]| {
            let mut t = lead.to_string();
            for f in fs {
                t.push_str(&f.render(eol));
            }
            t
        };
        let mut text = build(&fields);
        if r.chance(1, 4) && text.ends_with(eol) {
            text.truncate(text.len() - eol.len());
        }
        ctx.case(&text);
        let got = observe(&text);
        let class = format!("{} R versions, {}", want.len(), if eol == "\n" { "LF" } else { "CRLF" });
        ctx.count(&class, &text, has_depends);
        ctx.sample(&class, || json!({"description": text, "versions": want}));
        if got.as_ref() != Ok(&want) {
            let small = shrink_list(&fields, |fs| {
                fs.iter().any(|f| f.name == "Depends") == has_depends && observe(&build(fs)).as_ref() != Ok(&want)
            });
            let small = build(&small);
            let got = observe(&small);
            ctx.fail(
                &small,
                format!("DESCRIPTION {small:?} requires R {want:?} but was read as {got:?}"),
                json!({"description": small, "expected": want, "observed": format!("{got:?}")}),
            );
        }
        // totality on damaged text
        let mut cs: Vec<char> = text.chars().collect();
        for _ in 0..r.range(1, 12) {
            let i = r.below(cs.len() + 1);
            match r.below(4) {
                0 => cs.insert(i, odd_char(&mut r)),
                1 if i < cs.len() => {
                    cs.remove(i);
                }
                2 => cs.truncate(i),
                _ => cs.insert(i, *r.pick(&['(', ')', ',', ':', '\n', ' ', 'R', '>', '\r'])),
            }
        }
        let bad: String = cs.into_iter().collect();
        ctx.case(&bad);
        let got = observe(&bad);
        ctx.count("damaged text", &bad, false);
        if let Err(e) = got {
            ctx.fail(&bad, format!("DESCRIPTION {bad:?}: {e}"), json!({"description": bad}));
        }
    }
}
