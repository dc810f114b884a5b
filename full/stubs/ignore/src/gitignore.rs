//! Gitignore globs.
use crate::{Error, Match};
use globset::{Candidate, GlobBuilder, GlobSet, GlobSetBuilder};
use std::path::{Path, PathBuf};
#[derive(Clone, Debug)]
pub struct Glob { from: Option<PathBuf>, original: String, actual: String, is_whitelist: bool, is_only_dir: bool }
impl Glob {
    pub fn original(&self) -> &str { &self.original }
    pub fn actual(&self) -> &str { &self.actual }
    pub fn from(&self) -> Option<&Path> { self.from.as_deref() }
    pub fn is_whitelist(&self) -> bool { self.is_whitelist }
    pub fn is_only_dir(&self) -> bool { self.is_only_dir }
}
#[derive(Clone, Debug)]
pub struct Gitignore { pub(crate) root: PathBuf, set: GlobSet, globs: Vec<Glob>, pub(crate) num_ignores: u64, pub(crate) num_whitelists: u64 }
#[derive(Clone, Debug)]
pub struct GitignoreBuilder { root: PathBuf, b: GlobSetBuilder, globs: Vec<Glob> }
impl GitignoreBuilder {
    pub fn new<P: AsRef<Path>>(root: P) -> Self { let r = root.as_ref(); Self { root: r.strip_prefix("./").unwrap_or(r).to_path_buf(), b: GlobSetBuilder::new(), globs: vec![] } }
    pub fn build(&self) -> Result<Gitignore, Error> {
        let w = self.globs.iter().filter(|g| g.is_whitelist).count() as u64;
        let set = self.b.build().map_err(|e| Error::Glob { glob: None, err: e.to_string() })?;
        Ok(Gitignore { root: self.root.clone(), set, num_ignores: self.globs.len() as u64 - w, num_whitelists: w, globs: self.globs.clone() })
    }
    pub fn add_line(&mut self, from: Option<PathBuf>, mut line: &str) -> Result<&mut Self, Error> {
        if line.starts_with('#') { return Ok(self); }
        if !line.ends_with("\\ ") { line = line.trim_end(); }
        if line.is_empty() { return Ok(self); }
        let mut g = Glob { from, original: line.to_string(), actual: String::new(), is_whitelist: false, is_only_dir: false };
        let mut absolute = false;
        if line.starts_with("\\!") || line.starts_with("\\#") {
            line = &line[1..];
            absolute = line.starts_with('/');
        } else {
            if let Some(l) = line.strip_prefix('!') { g.is_whitelist = true; line = l; }
            if let Some(l) = line.strip_prefix('/') { line = l; absolute = true; }
        }
        if let Some(l) = line.strip_suffix('/') {
            g.is_only_dir = true;
            line = l.strip_suffix('\\').unwrap_or(l);
        }
        g.actual = line.to_string();
        if !absolute && !line.contains('/') && !(g.actual.starts_with("**/") || g.actual == "**") { g.actual = format!("**/{}", g.actual); }
        if g.actual.ends_with("/**") { g.actual = format!("{}/*", g.actual); }
        let parsed = GlobBuilder::new(&g.actual).literal_separator(true).case_insensitive(false).backslash_escape(true).build().map_err(|e| Error::Glob { glob: Some(g.original.clone()), err: e.kind().to_string() })?;
        self.b.add(parsed);
        self.globs.push(g);
        Ok(self)
    }
}
impl Gitignore {
    pub fn empty() -> Self { GitignoreBuilder::new("").build().unwrap() }
    pub fn from_file(root: &Path, file: &Path) -> Self {
        let mut b = GitignoreBuilder::new(root);
        for l in std::fs::read_to_string(file).unwrap_or_default().lines() { let _ = b.add_line(Some(file.to_path_buf()), l); }
        b.build().unwrap_or_else(|_| Self::empty())
    }
    pub fn is_empty(&self) -> bool { self.set.is_empty() }
    pub fn matched<P: AsRef<Path>>(&self, path: P, is_dir: bool) -> Match<()> {
        if self.is_empty() { return Match::None; }
        let path = self.strip(path.as_ref());
        for i in self.set.matches_candidate(&Candidate::new(path)).into_iter().rev() {
            let g = &self.globs[i];
            if !g.is_only_dir || is_dir { return if g.is_whitelist { Match::Whitelist(()) } else { Match::Ignore(()) }; }
        }
        Match::None
    }
    fn strip<'p>(&self, mut path: &'p Path) -> &'p Path {
        if let Ok(p) = path.strip_prefix("./") { path = p; }
        let file_name_only = path.components().count() == 1 && !path.is_absolute();
        if self.root != Path::new(".") && self.root != Path::new("") && !file_name_only && let Ok(p) = path.strip_prefix(&self.root) { path = p; }
        path
    }
}
