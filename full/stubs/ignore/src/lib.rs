//! A stand-in for `ignore`: walking directories with gitignore rules and overrides.
//! Set JARL_WALK_SEED to shuffle the order in which the parallel walk hands out entries.
#![allow(clippy::all)]
use std::collections::HashMap;
use std::fs::{FileType, Metadata};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
pub mod gitignore;
pub mod overrides;
use gitignore::Gitignore;
use overrides::Override;

#[derive(Clone, Debug)]
pub enum Match<T> { None, Ignore(T), Whitelist(T) }
impl<T> Match<T> {
    pub fn is_none(&self) -> bool { matches!(self, Match::None) }
    pub fn is_ignore(&self) -> bool { matches!(self, Match::Ignore(_)) }
    pub fn is_whitelist(&self) -> bool { matches!(self, Match::Whitelist(_)) }
    pub fn invert(self) -> Match<T> { match self { Match::None => Match::None, Match::Ignore(t) => Match::Whitelist(t), Match::Whitelist(t) => Match::Ignore(t) } }
    pub fn inner(&self) -> Option<&T> { match self { Match::None => None, Match::Ignore(t) | Match::Whitelist(t) => Some(t) } }
    pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> Match<U> { match self { Match::None => Match::None, Match::Ignore(t) => Match::Ignore(f(t)), Match::Whitelist(t) => Match::Whitelist(f(t)) } }
    pub fn or(self, o: Self) -> Self { if self.is_none() { o } else { self } }
}
#[derive(Debug)]
pub enum Error { Io(std::io::Error), Glob { glob: Option<String>, err: String }, WithPath { path: PathBuf, err: Box<Error> } }
impl Clone for Error { fn clone(&self) -> Self { match self { Error::Io(e) => Error::Io(std::io::Error::new(e.kind(), e.to_string())), Error::Glob { glob, err } => Error::Glob { glob: glob.clone(), err: err.clone() }, Error::WithPath { path, err } => Error::WithPath { path: path.clone(), err: err.clone() } } } }
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Error::Io(e) => e.fmt(f),
            Error::Glob { glob: Some(g), err } => write!(f, "error parsing glob '{g}': {err}"),
            Error::Glob { glob: None, err } => f.write_str(err),
            Error::WithPath { path, err } => write!(f, "{}: {err}", path.display()),
        }
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug)]
pub struct DirEntry { path: PathBuf, ty: Option<FileType>, depth: usize }
impl DirEntry {
    pub fn path(&self) -> &Path { &self.path }
    pub fn into_path(self) -> PathBuf { self.path }
    pub fn file_type(&self) -> Option<FileType> { self.ty }
    pub fn file_name(&self) -> &std::ffi::OsStr { self.path.file_name().unwrap_or(self.path.as_os_str()) }
    pub fn depth(&self) -> usize { self.depth }
    pub fn metadata(&self) -> Result<Metadata, Error> { std::fs::symlink_metadata(&self.path).map_err(Error::Io) }
    pub fn path_is_symlink(&self) -> bool { self.ty.is_some_and(|t| t.is_symlink()) }
    pub fn is_dir(&self) -> bool { self.ty.is_some_and(|t| t.is_dir()) }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WalkState { Continue, Skip, Quit }
impl WalkState { pub fn is_continue(&self) -> bool { *self == Self::Continue } pub fn is_quit(&self) -> bool { *self == Self::Quit } }
pub trait ParallelVisitor: Send { fn visit(&mut self, entry: Result<DirEntry, Error>) -> WalkState; }
pub trait ParallelVisitorBuilder<'s> { fn build(&mut self) -> Box<dyn ParallelVisitor + 's>; }

#[derive(Clone, Debug)]
struct Opts { hidden: bool, parents: bool, ignore: bool, git_ignore: bool, git_global: bool, git_exclude: bool, require_git: bool, follow: bool, max_depth: Option<usize> }
type Filter = Arc<dyn Fn(&DirEntry) -> bool + Send + Sync>;
#[derive(Clone)]
pub struct WalkBuilder { paths: Vec<PathBuf>, o: Opts, overrides: Override, threads: usize, sort: bool, filter: Option<Filter> }
impl WalkBuilder {
    pub fn new<P: AsRef<Path>>(p: P) -> Self {
        Self { paths: vec![p.as_ref().to_path_buf()], o: Opts { hidden: true, parents: true, ignore: true, git_ignore: true, git_global: true, git_exclude: true, require_git: true, follow: false, max_depth: None }, overrides: Override::empty(), threads: 0, sort: false, filter: None }
    }
    pub fn add<P: AsRef<Path>>(&mut self, p: P) -> &mut Self { self.paths.push(p.as_ref().to_path_buf()); self }
    pub fn hidden(&mut self, b: bool) -> &mut Self { self.o.hidden = b; self }
    pub fn parents(&mut self, b: bool) -> &mut Self { self.o.parents = b; self }
    pub fn ignore(&mut self, b: bool) -> &mut Self { self.o.ignore = b; self }
    pub fn git_ignore(&mut self, b: bool) -> &mut Self { self.o.git_ignore = b; self }
    pub fn git_global(&mut self, b: bool) -> &mut Self { self.o.git_global = b; self }
    pub fn git_exclude(&mut self, b: bool) -> &mut Self { self.o.git_exclude = b; self }
    pub fn require_git(&mut self, b: bool) -> &mut Self { self.o.require_git = b; self }
    pub fn standard_filters(&mut self, b: bool) -> &mut Self { self.hidden(b).parents(b).ignore(b).git_ignore(b).git_global(b).git_exclude(b) }
    pub fn follow_links(&mut self, b: bool) -> &mut Self { self.o.follow = b; self }
    pub fn max_depth(&mut self, d: Option<usize>) -> &mut Self { self.o.max_depth = d; self }
    pub fn overrides(&mut self, o: Override) -> &mut Self { self.overrides = o; self }
    pub fn threads(&mut self, n: usize) -> &mut Self { self.threads = n; self }
    pub fn sort_by_file_path<F>(&mut self, _f: F) -> &mut Self where F: Fn(&Path, &Path) -> std::cmp::Ordering + Send + Sync + 'static { self.sort = true; self }
    pub fn filter_entry<F: Fn(&DirEntry) -> bool + Send + Sync + 'static>(&mut self, f: F) -> &mut Self { self.filter = Some(Arc::new(f)); self }
    pub fn build(&self) -> Walk { Walk { w: Rules::new(self), stack: self.paths.iter().rev().map(|p| Ok((p.clone(), 0))).collect() } }
    pub fn build_parallel(&self) -> WalkParallel { WalkParallel { b: self.clone() } }
}

/// What decides whether an entry below a root is visited.
struct Rules { o: Opts, overrides: Override, filter: Option<Filter>, global: Option<Gitignore>, cache: Mutex<HashMap<PathBuf, Arc<Dir>>> }
struct Dir { git: bool, own: Option<Gitignore>, ignore: Vec<Gitignore>, exclude: Option<Gitignore> }
/// The user's own list of what git is to ignore, in the place where it is by default.
fn global() -> Option<Gitignore> {
    let dir = std::env::var_os("XDG_CONFIG_HOME").map(PathBuf::from).or_else(|| Some(Path::new(&std::env::var_os("HOME")?).join(".config")))?;
    let f = dir.join("git/ignore");
    f.is_file().then(|| Gitignore::from_file(Path::new("/"), &f))
}
impl Rules {
    fn new(b: &WalkBuilder) -> Self { Self { o: b.o.clone(), overrides: b.overrides.clone(), filter: b.filter.clone(), global: b.o.git_global.then(global).flatten(), cache: Mutex::new(HashMap::new()) } }
    fn dir(&self, d: &Path) -> Arc<Dir> {
        if let Some(x) = self.cache.lock().unwrap().get(d) { return x.clone(); }
        let git = d.join(".git").exists();
        let mut ignore = vec![];
        if self.o.git_ignore && d.join(".gitignore").is_file() { ignore.push(Gitignore::from_file(d, &d.join(".gitignore"))); }
        let ex = d.join(".git/info/exclude");
        let exclude = (self.o.git_exclude && ex.is_file()).then(|| Gitignore::from_file(d, &ex));
        let own = (self.o.ignore && d.join(".ignore").is_file()).then(|| Gitignore::from_file(d, &d.join(".ignore")));
        let x = Arc::new(Dir { git, own, ignore, exclude });
        self.cache.lock().unwrap().insert(d.to_path_buf(), x.clone());
        x
    }
    fn skip(&self, p: &Path, is_dir: bool) -> bool {
        match self.overrides.matched(p, is_dir) { Match::Ignore(_) => return true, Match::Whitelist(_) => return false, Match::None => {} }
        let abs = std::path::absolute(p).unwrap_or_else(|_| p.to_path_buf());
        let mut dirs = vec![];
        let mut in_git = !self.o.require_git;
        for d in abs.ancestors().skip(1) {
            let x = self.dir(d);
            let git = x.git;
            dirs.push(x);
            if git { in_git = true; break; }
            if !self.o.parents { break; }
        }
        for d in &dirs {
            if let Some(g) = &d.own { match g.matched(&abs, is_dir) { Match::Ignore(()) => return true, Match::Whitelist(()) => return false, Match::None => {} } }
        }
        if in_git {
            for d in &dirs {
                for g in d.ignore.iter() {
                    match g.matched(&abs, is_dir) { Match::Ignore(()) => return true, Match::Whitelist(()) => return false, Match::None => {} }
                }
            }
            for d in &dirs {
                if let Some(g) = &d.exclude { match g.matched(&abs, is_dir) { Match::Ignore(()) => return true, Match::Whitelist(()) => return false, Match::None => {} } }
            }
        }
        if in_git && let Some(g) = &self.global && g.matched(&abs, is_dir).is_ignore() { return true; }
        self.o.hidden && p.file_name().is_some_and(|n| n.as_encoded_bytes().starts_with(b"."))
    }
    fn entry(&self, p: &Path, depth: usize) -> Result<DirEntry, Error> {
        let md = if self.o.follow || depth == 0 { std::fs::metadata(p) } else { std::fs::symlink_metadata(p) };
        match md { Ok(m) => Ok(DirEntry { path: p.to_path_buf(), ty: Some(m.file_type()), depth }), Err(e) => Err(Error::WithPath { path: p.to_path_buf(), err: Box::new(Error::Io(e)) }) }
    }
    /// The children of a directory that are not skipped.
    fn children(&self, e: &DirEntry) -> Vec<Result<(PathBuf, usize), Error>> {
        if !e.is_dir() || self.o.max_depth.is_some_and(|m| e.depth >= m) { return vec![]; }
        let rd = match std::fs::read_dir(&e.path) { Ok(r) => r, Err(x) => return vec![Err(Error::WithPath { path: e.path.clone(), err: Box::new(Error::Io(x)) })] };
        let mut v = vec![];
        for c in rd.flatten() {
            let p = c.path();
            let is_dir = c.file_type().is_ok_and(|t| t.is_dir());
            if self.skip(&p, is_dir) { continue; }
            if let Some(f) = &self.filter && let Ok(e) = self.entry(&p, e.depth + 1) && !f(&e) { continue; }
            v.push(Ok((p, e.depth + 1)));
        }
        v
    }
}
pub struct Walk { w: Rules, stack: Vec<Result<(PathBuf, usize), Error>> }
impl Walk { pub fn new<P: AsRef<Path>>(p: P) -> Self { WalkBuilder::new(p).build() } }
impl Iterator for Walk {
    type Item = Result<DirEntry, Error>;
    fn next(&mut self) -> Option<Self::Item> {
        let (p, d) = match self.stack.pop()? { Ok(x) => x, Err(e) => return Some(Err(e)) };
        let e = match self.w.entry(&p, d) { Ok(e) => e, Err(e) => return Some(Err(e)) };
        let c = self.w.children(&e);
        self.stack.extend(c);
        Some(Ok(e))
    }
}
pub struct WalkParallel { b: WalkBuilder }
impl WalkParallel {
    pub fn visit(self, builder: &mut dyn ParallelVisitorBuilder<'_>) {
        let w = Rules::new(&self.b);
        let seed: Option<u64> = std::env::var("JARL_WALK_SEED").ok().and_then(|s| s.parse().ok());
        let n = match (self.b.threads, seed) { (_, Some(s)) => 1 + (s % 7) as usize, (0, _) => 4, (n, _) => n };
        let queue: Mutex<(Vec<Result<(PathBuf, usize), Error>>, usize, bool, u64)> = Mutex::new((self.b.paths.iter().map(|p| Ok((p.clone(), 0))).collect(), 0, false, seed.unwrap_or(1) | 1));
        let cv = std::sync::Condvar::new();
        let visitors: Vec<_> = (0..n).map(|_| builder.build()).collect();
        std::thread::scope(|s| {
            let mut threads = vec![];
            for mut v in visitors {
                let (queue, cv, w) = (&queue, &cv, &w);
                threads.push(s.spawn(move || {
                    loop {
                        let job = {
                            let mut q = queue.lock().unwrap();
                            loop {
                                if q.2 { return; }
                                if !q.0.is_empty() {
                                    q.1 += 1;
                                    let len = q.0.len();
                                    let at = if seed.is_some() { q.3 ^= q.3 << 13; q.3 ^= q.3 >> 7; q.3 ^= q.3 << 17; (q.3 % len as u64) as usize } else { len - 1 };
                                    break q.0.swap_remove(at);
                                }
                                if q.1 == 0 { cv.notify_all(); return; }
                                q = cv.wait(q).unwrap();
                            }
                        };
                        let mut more = vec![];
                        let state = match job {
                            Err(e) => v.visit(Err(e)),
                            Ok((p, d)) => match w.entry(&p, d) {
                                Err(e) => v.visit(Err(e)),
                                Ok(e) => { let st = v.visit(Ok(e.clone())); if st == WalkState::Continue { more = w.children(&e); } st }
                            },
                        };
                        let mut q = queue.lock().unwrap();
                        q.1 -= 1;
                        q.0.extend(more);
                        if state == WalkState::Quit { q.2 = true; }
                        cv.notify_all();
                    }
                }));
            }
            // joined, as a thread that ends while it is being detached can crash in glibc (bug 19951)
            for t in threads {
                if let Err(e) = t.join() {
                    std::panic::resume_unwind(e);
                }
            }
        });
    }
    pub fn run<'s, F>(self, mkf: F) where F: FnMut() -> Box<dyn FnMut(Result<DirEntry, Error>) -> WalkState + Send + 's> {
        struct B<F>(F);
        struct V<'s>(Box<dyn FnMut(Result<DirEntry, Error>) -> WalkState + Send + 's>);
        impl ParallelVisitor for V<'_> { fn visit(&mut self, e: Result<DirEntry, Error>) -> WalkState { (self.0)(e) } }
        impl<'s, F: FnMut() -> Box<dyn FnMut(Result<DirEntry, Error>) -> WalkState + Send + 's>> ParallelVisitorBuilder<'s> for B<F> { fn build(&mut self) -> Box<dyn ParallelVisitor + 's> { Box::new(V((self.0)())) } }
        let mut b = B(mkf);
        self.visit(&mut b);
    }
}
