//! zed_extension_api 0.2.0's interface, with the editor, GitHub and the
//! download service played by the explorer (`host`).

pub use serde_json;
use std::fmt;

pub type Result<T, E = String> = core::result::Result<T, E>;

pub mod host {
    use super::*;
    use std::cell::RefCell;

    #[derive(Clone, Debug)]
    pub struct Host {
        /// JSON of the language server's settings, or an error.
        pub lsp: Result<String>,
        pub which: Option<String>,
        pub platform: (Os, Architecture),
        pub release: Result<GithubRelease>,
        pub download: Download,
        pub asked: Vec<(String, bool, bool)>,
        pub downloads: Vec<(String, String, DownloadedFileType, bool)>,
        pub which_asked: Vec<String>,
        pub settings_asked: Vec<String>,
        pub statuses: Vec<LanguageServerInstallationStatus>,
    }
    #[derive(Clone, Debug)]
    pub enum Download {
        /// The archive holds this file (path below the target directory).
        Ok(String),
        Err,
        /// Fails after the directory was created.
        Partial,
    }
    thread_local! {
        pub static HOST: RefCell<Option<Host>> = const { RefCell::new(None) };
        pub static NEW: RefCell<Option<fn() -> Box<dyn Extension>>> = const { RefCell::new(None) };
    }
    pub fn with<T>(f: impl FnOnce(&mut Host) -> T) -> T {
        HOST.with(|h| f(h.borrow_mut().as_mut().expect("host")))
    }
}
use host::with;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Os {
    Mac,
    Linux,
    Windows,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Architecture {
    Aarch64,
    X86,
    X8664,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DownloadedFileType {
    Gzip,
    GzipTar,
    Zip,
    Uncompressed,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum LanguageServerInstallationStatus {
    None,
    Downloading,
    CheckingForUpdate,
    Failed(String),
}
#[derive(Clone, Debug)]
pub struct GithubRelease {
    pub version: String,
    pub assets: Vec<GithubReleaseAsset>,
}
#[derive(Clone, Debug)]
pub struct GithubReleaseAsset {
    pub name: String,
    pub download_url: String,
}
#[derive(Clone, Copy, Debug)]
pub struct GithubReleaseOptions {
    pub require_assets: bool,
    pub pre_release: bool,
}
pub type EnvVars = Vec<(String, String)>;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Command {
    pub command: String,
    pub args: Vec<String>,
    pub env: EnvVars,
}

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
pub struct LanguageServerId(pub String);
impl AsRef<str> for LanguageServerId {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for LanguageServerId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

#[derive(Debug)]
pub struct Worktree;
impl Worktree {
    pub fn id(&self) -> u64 {
        7
    }
    pub fn root_path(&self) -> String {
        "/worktree".into()
    }
    pub fn read_text_file(&self, _: &str) -> Result<String> {
        Err("no such file".into())
    }
    pub fn which(&self, name: &str) -> Option<String> {
        with(|h| {
            h.which_asked.push(name.into());
            if name == "jarl" {
                h.which.clone()
            } else {
                None
            }
        })
    }
    pub fn shell_env(&self) -> EnvVars {
        vec![]
    }
}

pub mod settings {
    use super::*;
    use serde::{Deserialize, Serialize};
    use std::collections::HashMap;

    #[derive(Default, Debug, Serialize, Deserialize)]
    pub struct LspSettings {
        pub binary: Option<CommandSettings>,
        pub initialization_options: Option<serde_json::Value>,
        pub settings: Option<serde_json::Value>,
    }
    #[derive(Debug, Serialize, Deserialize, PartialEq, Eq)]
    pub struct CommandSettings {
        pub path: Option<String>,
        pub arguments: Option<Vec<String>>,
        pub env: Option<HashMap<String, String>>,
    }
    impl LspSettings {
        pub fn for_worktree(name: &str, _: &Worktree) -> Result<Self> {
            let text = with(|h| {
                h.settings_asked.push(name.into());
                h.lsp.clone()
            })?;
            serde_json::from_str(&text).map_err(|e| e.to_string())
        }
    }
}

pub fn set_language_server_installation_status(
    _: &LanguageServerId,
    s: &LanguageServerInstallationStatus,
) {
    with(|h| h.statuses.push(s.clone()))
}
pub fn latest_github_release(repo: &str, o: GithubReleaseOptions) -> Result<GithubRelease> {
    with(|h| {
        h.asked.push((repo.into(), o.require_assets, o.pre_release));
        h.release.clone()
    })
}
pub fn github_release_by_tag_name(repo: &str, tag: &str) -> Result<GithubRelease> {
    with(|h| {
        h.asked.push((repo.into(), true, false));
        h.release.clone().and_then(|r| if r.version == tag { Ok(r) } else { Err("no such tag".into()) })
    })
}
pub fn current_platform() -> (Os, Architecture) {
    with(|h| h.platform)
}
pub fn download_file(url: &str, path: &str, t: DownloadedFileType) -> Result<()> {
    with(|h| {
        let ok = matches!(h.download, host::Download::Ok(_));
        h.downloads.push((url.into(), path.into(), t, ok));
        fakestd::world::with(|w| {
            w.log.push(("download".into(), path.into()));
            match &h.download {
                host::Download::Ok(f) => {
                    w.mkdirs(path);
                    w.put(&format!("{path}/{f}"), url.as_bytes());
                    Ok(())
                }
                host::Download::Err => Err("network".into()),
                host::Download::Partial => {
                    w.mkdirs(path);
                    Err("connection lost".into())
                }
            }
        })
    })
}
pub fn make_file_executable(_: &str) -> Result<()> {
    Ok(())
}

pub trait Extension: Send + Sync {
    fn new() -> Self
    where
        Self: Sized;
    fn language_server_command(&mut self, _: &LanguageServerId, _: &Worktree) -> Result<Command> {
        Err("`language_server_command` not implemented".to_string())
    }
    fn language_server_initialization_options(
        &mut self,
        _: &LanguageServerId,
        _: &Worktree,
    ) -> Result<Option<serde_json::Value>> {
        Ok(None)
    }
    fn language_server_workspace_configuration(
        &mut self,
        _: &LanguageServerId,
        _: &Worktree,
    ) -> Result<Option<serde_json::Value>> {
        Ok(None)
    }
}

#[macro_export]
macro_rules! register_extension {
    ($t:ty) => {
        pub fn __new_extension() -> Box<dyn $crate::Extension> {
            Box::new(<$t as $crate::Extension>::new())
        }
    };
}
