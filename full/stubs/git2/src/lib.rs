//! A stand-in for `git2` over the `git` command.
use std::path::{Path, PathBuf};
use std::process::Command;
#[derive(Debug, Clone)]
pub struct Error { message: String }
impl Error { pub fn message(&self) -> &str { &self.message } pub fn from_str(s: &str) -> Self { Self { message: s.to_string() } } }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.message) } }
impl std::error::Error for Error {}
fn fail<T>(m: impl Into<String>) -> Result<T, Error> { Err(Error { message: m.into() }) }
fn git(dir: &Path, args: &[&str]) -> Result<Vec<u8>, Error> {
    let o = Command::new("git").arg("-c").arg("safe.directory=*").arg("-C").arg(dir).args(args).env_remove("GIT_DIR").env("GIT_OPTIONAL_LOCKS", "0").output().map_err(|e| Error { message: e.to_string() })?;
    if o.status.success() { Ok(o.stdout) } else { fail(String::from_utf8_lossy(&o.stderr).trim().to_string()) }
}
/// The git folder of a work tree: `.git`, or where the file `.git` says (worktrees and submodules).
fn git_dir(d: &Path) -> Option<PathBuf> {
    let g = d.join(".git");
    if g.join("HEAD").exists() { return Some(g); }
    let t = std::fs::read_to_string(&g).ok()?;
    let g = d.join(t.strip_prefix("gitdir:")?.trim());
    g.join("HEAD").exists().then_some(g)
}
#[derive(Clone, Debug)]
pub struct Repository { git_dir: PathBuf, work: PathBuf }
impl Repository {
    pub fn discover<P: AsRef<Path>>(path: P) -> Result<Self, Error> {
        let p = path.as_ref();
        let p = if p.as_os_str().is_empty() { Path::new(".") } else { p };
        let abs = std::fs::canonicalize(p).map_err(|e| Error { message: format!("failed to resolve path '{}': {e}", p.display()) })?;
        for d in abs.ancestors() {
            if let Some(g) = git_dir(d) { return Ok(Self { git_dir: g, work: d.to_path_buf() }); }
            // inside of a git folder itself: libgit2 finds that repository
            if d.join("HEAD").exists() && d.join("objects").exists() && d.file_name().is_some_and(|n| n == ".git") {
                return Ok(Self { git_dir: d.to_path_buf(), work: d.parent().unwrap().to_path_buf() });
            }
        }
        fail(format!("could not find repository at '{}'", p.display()))
    }
    pub fn open<P: AsRef<Path>>(path: P) -> Result<Self, Error> {
        match git_dir(path.as_ref()) { Some(git_dir) => Ok(Self { git_dir, work: path.as_ref().to_path_buf() }), None => fail("could not find repository") }
    }
    pub fn init<P: AsRef<Path>>(path: P) -> Result<Self, Error> {
        std::fs::create_dir_all(&path).map_err(|e| Error { message: e.to_string() })?;
        git(path.as_ref(), &["init", "-q"])?;
        Self::discover(path)
    }
    /// The `.git` folder, with a trailing slash as libgit2 gives it.
    pub fn path(&self) -> &Path { &self.git_dir }
    pub fn workdir(&self) -> Option<&Path> { Some(&self.work) }
    pub fn is_bare(&self) -> bool { false }
    pub fn statuses(&self, opts: Option<&mut StatusOptions>) -> Result<Statuses, Error> {
        let o = opts.map_or_else(StatusOptions::new, |o| o.clone());
        let mut args = vec!["status", "--porcelain=v1", "-z", if o.untracked { if o.recurse { "--untracked-files=all" } else { "--untracked-files=normal" } } else { "--untracked-files=no" }];
        if o.ignored { args.push("--ignored"); }
        let out = git(&self.work, &args)?;
        let mut v = vec![];
        let mut it = out.split(|b| *b == 0);
        while let Some(e) = it.next() {
            if e.len() < 4 { continue; }
            if e[0] == b'R' || e[0] == b'C' { it.next(); }
            let s = match (e[0], e[1]) { (b'?', _) => Status::WT_NEW, (b'!', _) => Status::IGNORED, (x, y) => Status(index(x) | worktree(y)) };
            v.push((String::from_utf8_lossy(&e[3..]).into_owned(), s));
        }
        Ok(Statuses { v })
    }
    pub fn index(&self) -> Result<Index, Error> { Ok(Index { work: self.work.clone() }) }
    pub fn find_tree(&self, id: Oid) -> Result<Tree, Error> { Ok(Tree { id }) }
    pub fn commit(&self, _r: Option<&str>, a: &Signature<'_>, _c: &Signature<'_>, message: &str, _t: &Tree, _p: &[&Commit]) -> Result<Oid, Error> {
        git(&self.work, &["-c", &format!("user.name={}", a.name), "-c", &format!("user.email={}", a.email), "commit", "-q", "--no-gpg-sign", "-m", message])?;
        Ok(Oid)
    }
}
fn index(c: u8) -> u32 { match c { b'A' => 1, b'M' => 2, b'D' => 4, b'R' | b'C' => 8, b'T' => 16, b'U' => 1 << 15, _ => 0 } }
fn worktree(c: u8) -> u32 { match c { b'M' => 256, b'D' => 512, b'T' => 1024, b'R' => 2048, b'A' => 128, b'U' => 1 << 15, _ => 0 } }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Status(u32);
impl Status {
    pub const CURRENT: Status = Status(0);
    pub const INDEX_NEW: Status = Status(1);
    pub const INDEX_MODIFIED: Status = Status(2);
    pub const INDEX_DELETED: Status = Status(4);
    pub const WT_NEW: Status = Status(128);
    pub const WT_MODIFIED: Status = Status(256);
    pub const WT_DELETED: Status = Status(512);
    pub const IGNORED: Status = Status(1 << 14);
    pub const CONFLICTED: Status = Status(1 << 15);
    pub fn is_empty(&self) -> bool { self.0 == 0 }
    pub fn bits(&self) -> u32 { self.0 }
    pub fn contains(&self, o: Status) -> bool { self.0 & o.0 == o.0 }
    pub fn intersects(&self, o: Status) -> bool { self.0 & o.0 != 0 }
    pub fn is_ignored(&self) -> bool { self.contains(Self::IGNORED) }
    pub fn is_wt_new(&self) -> bool { self.contains(Self::WT_NEW) }
    pub fn is_wt_modified(&self) -> bool { self.contains(Self::WT_MODIFIED) }
}
#[derive(Clone, Debug)]
pub struct StatusOptions { untracked: bool, ignored: bool, recurse: bool }
impl Default for StatusOptions { fn default() -> Self { Self::new() } }
impl StatusOptions {
    pub fn new() -> Self { Self { untracked: false, ignored: false, recurse: false } }
    pub fn include_untracked(&mut self, b: bool) -> &mut Self { self.untracked = b; self }
    pub fn include_ignored(&mut self, b: bool) -> &mut Self { self.ignored = b; self }
    pub fn recurse_untracked_dirs(&mut self, b: bool) -> &mut Self { self.recurse = b; self }
}
pub struct Statuses { v: Vec<(String, Status)> }
pub struct StatusEntry<'a> { p: &'a str, s: Status }
impl StatusEntry<'_> { pub fn path(&self) -> Option<&str> { Some(self.p) } pub fn status(&self) -> Status { self.s } }
impl Statuses {
    pub fn iter(&self) -> impl Iterator<Item = StatusEntry<'_>> { self.v.iter().map(|(p, s)| StatusEntry { p, s: *s }) }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
}
pub struct Index { work: PathBuf }
impl Index {
    pub fn add_path(&mut self, p: &Path) -> Result<(), Error> { git(&self.work, &["add", "--", &p.to_string_lossy()]).map(|_| ()) }
    pub fn write(&mut self) -> Result<(), Error> { Ok(()) }
    pub fn write_tree(&mut self) -> Result<Oid, Error> { Ok(Oid) }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Oid;
pub struct Tree { #[allow(dead_code)] id: Oid }
pub struct Commit;
pub struct Signature<'a> { name: String, email: String, p: std::marker::PhantomData<&'a ()> }
impl Signature<'_> { pub fn now(name: &str, email: &str) -> Result<Self, Error> { Ok(Self { name: name.into(), email: email.into(), p: std::marker::PhantomData }) } }
