//! Globs of the command line: the ones without `!` select, the ones with `!` exclude.
use crate::gitignore::{Gitignore, GitignoreBuilder};
use crate::{Error, Match};
use std::path::Path;
#[derive(Clone, Debug)]
pub struct Override(Gitignore);
impl Override {
    pub fn empty() -> Self { Override(Gitignore::empty()) }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn path(&self) -> &Path { &self.0.root }
    pub fn num_ignores(&self) -> u64 { self.0.num_whitelists }
    pub fn num_whitelists(&self) -> u64 { self.0.num_ignores }
    pub fn matched<P: AsRef<Path>>(&self, path: P, is_dir: bool) -> Match<()> {
        if self.is_empty() { return Match::None; }
        let m = self.0.matched(path, is_dir).invert();
        if m.is_none() && self.num_whitelists() > 0 && !is_dir { return Match::Ignore(()); }
        m
    }
}
#[derive(Clone, Debug)]
pub struct OverrideBuilder { b: GitignoreBuilder }
impl OverrideBuilder {
    pub fn new<P: AsRef<Path>>(p: P) -> Self { Self { b: GitignoreBuilder::new(p) } }
    pub fn build(&self) -> Result<Override, Error> { Ok(Override(self.b.build()?)) }
    pub fn add(&mut self, glob: &str) -> Result<&mut Self, Error> { self.b.add_line(None, glob)?; Ok(self) }
    pub fn case_insensitive(&mut self, _: bool) -> Result<&mut Self, Error> { Ok(self) }
}
