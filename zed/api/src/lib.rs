//! A stand-in for the host side of `zed_extension_api` 0.2: same names and types, but every call is
//! answered from a script set by the monitor and recorded. Downloads create files below the current
//! directory only.

pub use serde_json;
use std::cell::RefCell;
use std::collections::HashMap;

pub type Result<T, E = String> = core::result::Result<T, E>;
pub type EnvVars = Vec<(String, String)>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Event {
    Which(String),
    Settings(String),
    Status(String),
    LatestRelease { repo: String, require_assets: bool, pre_release: bool },
    ReleaseByTag { repo: String, tag: String },
    Download { url: String, to: String, kind: DownloadedFileType },
    MakeExecutable(String),
    Platform,
}

/// How the next downloads behave.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Download {
    /// creates these files (relative to the target directory)
    Creates(Vec<String>),
    Fails(String),
    /// creates the directory, then fails
    Partial(String),
}

#[derive(Debug, Clone)]
pub struct World {
    pub settings: Result<settings::LspSettings>,
    pub on_path: HashMap<String, String>,
    pub release: Result<GithubRelease>,
    pub platform: (Os, Architecture),
    pub download: Download,
    pub events: Vec<Event>,
}

thread_local! {
    pub static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
}

fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("no world")))
}

pub fn set_world(w: World) {
    WORLD.with(|x| *x.borrow_mut() = Some(w));
}
pub fn take_events() -> Vec<Event> {
    with(|w| std::mem::take(&mut w.events))
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Os {
    Mac,
    Linux,
    Windows,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Architecture {
    Aarch64,
    X86,
    X8664,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum DownloadedFileType {
    Gzip,
    GzipTar,
    Zip,
    Uncompressed,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum LanguageServerInstallationStatus {
    None,
    Downloading,
    CheckingForUpdate,
    Failed(String),
}
#[derive(Debug, Clone)]
pub struct GithubReleaseAsset {
    pub name: String,
    pub download_url: String,
}
#[derive(Debug, Clone)]
pub struct GithubRelease {
    pub version: String,
    pub assets: Vec<GithubReleaseAsset>,
}
#[derive(Debug, Clone, Copy)]
pub struct GithubReleaseOptions {
    pub require_assets: bool,
    pub pre_release: bool,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct LanguageServerId(pub String);
impl AsRef<str> for LanguageServerId {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl std::fmt::Display for LanguageServerId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
#[derive(Debug, Clone)]
pub struct Command {
    pub command: String,
    pub args: Vec<String>,
    pub env: EnvVars,
}
#[derive(Debug)]
pub struct Worktree {
    pub root: String,
}
impl Worktree {
    pub fn id(&self) -> u64 {
        1
    }
    pub fn root_path(&self) -> String {
        self.root.clone()
    }
    pub fn which(&self, name: &str) -> Option<String> {
        with(|w| {
            w.events.push(Event::Which(name.into()));
            w.on_path.get(name).cloned()
        })
    }
    pub fn shell_env(&self) -> EnvVars {
        vec![]
    }
    pub fn read_text_file(&self, _path: &str) -> Result<String> {
        Err("no such file".into())
    }
}

pub mod settings {
    use super::*;
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct CommandSettings {
        pub path: Option<String>,
        pub arguments: Option<Vec<String>>,
        pub env: Option<HashMap<String, String>>,
    }
    #[derive(Debug, Clone, Default, PartialEq)]
    pub struct LspSettings {
        pub binary: Option<CommandSettings>,
        pub initialization_options: Option<serde_json::Value>,
        pub settings: Option<serde_json::Value>,
    }
    impl LspSettings {
        pub fn for_worktree(language_server_name: &str, _worktree: &Worktree) -> Result<Self> {
            with(|w| {
                w.events.push(Event::Settings(language_server_name.into()));
                w.settings.clone()
            })
        }
    }
}

pub fn set_language_server_installation_status(id: &LanguageServerId, s: &LanguageServerInstallationStatus) {
    with(|w| w.events.push(Event::Status(format!("{}:{s:?}", id.0))));
}
pub fn latest_github_release(repo: &str, o: GithubReleaseOptions) -> Result<GithubRelease> {
    with(|w| {
        w.events.push(Event::LatestRelease { repo: repo.into(), require_assets: o.require_assets, pre_release: o.pre_release });
        w.release.clone()
    })
}
pub fn github_release_by_tag_name(repo: &str, tag: &str) -> Result<GithubRelease> {
    with(|w| {
        w.events.push(Event::ReleaseByTag { repo: repo.into(), tag: tag.into() });
        w.release.clone()
    })
}
pub fn current_platform() -> (Os, Architecture) {
    with(|w| {
        w.events.push(Event::Platform);
        w.platform
    })
}
pub fn make_file_executable(p: &str) -> Result<()> {
    with(|w| w.events.push(Event::MakeExecutable(p.into())));
    Ok(())
}
pub fn download_file(url: &str, to: &str, kind: DownloadedFileType) -> Result<()> {
    let how = with(|w| {
        w.events.push(Event::Download { url: url.into(), to: to.into(), kind });
        w.download.clone()
    });
    if to.contains("..") || to.starts_with('/') || to.is_empty() {
        return Err("outside of the extension's directory".into());
    }
    match how {
        Download::Fails(e) => Err(e),
        Download::Partial(e) => {
            let _ = std::fs::create_dir_all(to);
            Err(e)
        }
        Download::Creates(files) => {
            std::fs::create_dir_all(to).map_err(|e| e.to_string())?;
            for f in files {
                let p = std::path::Path::new(to).join(f);
                std::fs::create_dir_all(p.parent().unwrap()).map_err(|e| e.to_string())?;
                std::fs::write(p, url).map_err(|e| e.to_string())?;
            }
            Ok(())
        }
    }
}

pub trait Extension: Send + Sync {
    fn new() -> Self
    where
        Self: Sized;
    fn language_server_command(&mut self, _id: &LanguageServerId, _w: &Worktree) -> Result<Command> {
        Err("`language_server_command` not implemented".to_string())
    }
    fn language_server_initialization_options(&mut self, _id: &LanguageServerId, _w: &Worktree) -> Result<Option<serde_json::Value>> {
        Ok(None)
    }
    fn language_server_workspace_configuration(&mut self, _id: &LanguageServerId, _w: &Worktree) -> Result<Option<serde_json::Value>> {
        Ok(None)
    }
}

#[macro_export]
macro_rules! register_extension {
    ($t:ty) => {
        pub fn verif_new_extension() -> Box<dyn $crate::Extension> {
            Box::new(<$t as $crate::Extension>::new())
        }
    };
}
