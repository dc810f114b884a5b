//! C11: the Zed extension, driven end to end through its public entry points against a scripted host.
//!
//! The code under test deletes directories next to it, so the driver re-executes itself as an
//! unprivileged user inside a scratch directory and nothing outside is writable for it.

use kit::{Ctx, Rng, guard};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use zed_extension_api::settings::{CommandSettings, LspSettings};
use zed_extension_api::{
    Architecture as A, Download, DownloadedFileType as T, Event, GithubRelease, GithubReleaseAsset, LanguageServerId, Os, World, Worktree, set_world,
    take_events,
};

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(String::as_str) {
        Some("--inner") => inner(&args[1], &PathBuf::from(&args[2])),
        Some(prop) => outer(prop),
        None => std::process::exit(2),
    }
}

fn outer(prop: &str) -> ! {
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let scratch = std::env::temp_dir().join(format!("jarl-zed-{}-{}", std::process::id(), std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos()));
    let (out, work) = (scratch.join("verif"), scratch.join("work"));
    for d in [&scratch, &out, &work] {
        std::fs::create_dir_all(d).unwrap();
        std::fs::set_permissions(d, std::fs::Permissions::from_mode(0o777)).unwrap();
    }
    let exe = scratch.join("zedmon");
    std::fs::copy(std::env::current_exe().unwrap(), &exe).unwrap();
    std::fs::set_permissions(&exe, std::fs::Permissions::from_mode(0o755)).unwrap();
    let _ = std::fs::copy(verif.join("known_findings.json"), out.join("known_findings.json"));
    let mut cmd = std::process::Command::new(&exe);
    cmd.args(["--inner", prop]).arg(&work).current_dir(&work).env("VERIF_DIR", &out).env("TMPDIR", &work);
    if unsafe { libc::geteuid() } == 0 {
        cmd.uid(65534).gid(65534);
    }
    let res = cmd.output();
    let code = match res {
        Ok(o) => {
            let text = String::from_utf8_lossy(&o.stdout).replace(out.to_str().unwrap(), verif.to_str().unwrap());
            for sub in ["evidence", "replays"] {
                let _ = std::fs::create_dir_all(verif.join(sub));
                for f in std::fs::read_dir(out.join(sub)).into_iter().flatten().flatten() {
                    let _ = std::fs::copy(f.path(), verif.join(sub).join(f.file_name()));
                }
            }
            print!("{text}");
            eprint!("{}", String::from_utf8_lossy(&o.stderr));
            match o.status.code() {
                Some(c) => c,
                None => {
                    let p = verif.join("replays").join(format!("{prop}-crash.txt"));
                    let _ = std::fs::write(&p, format!("{:?}\n{text}\n{}", o.status, String::from_utf8_lossy(&o.stderr)));
                    println!("the extension ended the process: {:?}", o.status);
                    println!("VIOLATION property={prop} replay={}", p.display());
                    1
                }
            }
        }
        Err(e) => {
            eprintln!("cannot run as an unprivileged user: {e}");
            2
        }
    };
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(code)
}

/// Asset naming as published by the release workflow (cargo-dist): jarl-<triple>.<suffix>.
fn triple(os: Os, a: A) -> (String, &'static str, T) {
    let arch = match a {
        A::Aarch64 => "aarch64",
        A::X86 => "x86",
        A::X8664 => "x86_64",
    };
    match os {
        Os::Mac => (format!("jarl-{arch}-apple-darwin"), "tar.gz", T::GzipTar),
        Os::Linux => (format!("jarl-{arch}-unknown-linux-gnu"), "tar.gz", T::GzipTar),
        Os::Windows => (format!("jarl-{arch}-pc-windows-msvc"), "zip", T::Zip),
    }
}

/// The release targets and archive formats of /repo/dist-workspace.toml.
fn dist() -> (Vec<String>, String, String) {
    let t = std::fs::read_to_string("/repo/dist-workspace.toml").unwrap_or_default();
    let mut targets = vec![];
    let mut inside = false;
    let (mut win, mut unix) = (String::new(), String::new());
    for l in t.lines() {
        let l = l.split('#').next().unwrap().trim();
        if l.starts_with("targets") {
            inside = true;
        } else if inside && l.starts_with(']') {
            inside = false;
        } else if inside && l.starts_with('"') {
            targets.push(l.trim_matches([',', ' ', '"']).to_string());
        } else if let Some(v) = l.strip_prefix("windows-archive = ") {
            win = v.trim_matches('"').trim_start_matches('.').to_string();
        } else if let Some(v) = l.strip_prefix("unix-archive = ") {
            unix = v.trim_matches('"').trim_start_matches('.').to_string();
        }
    }
    (targets, win, unix)
}

type Tree = BTreeMap<String, String>;

/// Everything below a directory: files with content, directories, links.
fn tree(root: &Path) -> Tree {
    fn walk(root: &Path, dir: &Path, out: &mut Tree) {
        for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
            let p = e.path();
            let rel = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
            let m = std::fs::symlink_metadata(&p).unwrap();
            if m.file_type().is_symlink() {
                out.insert(rel, "link".into());
            } else if m.is_dir() {
                out.insert(rel, "dir".into());
                walk(root, &p, out);
            } else {
                out.insert(rel, format!("file:{}", std::fs::read_to_string(&p).unwrap_or_default()));
            }
        }
    }
    let mut out = Tree::new();
    walk(root, root, &mut out);
    out
}

fn inner(prop: &str, work: &Path) -> ! {
    assert_ne!(unsafe { libc::geteuid() }, 0, "refusing to run as root");
    let mut ctx = Ctx::new(prop);
    ctx.rule = "sessions of 1-8 server starts of one extension instance: random user settings, PATH contents, platform, published release (with and without the right asset), download outcomes, and files that appear or vanish between starts; all host calls and the whole directory tree before/after are observed; non-trivial = a start; distinct by (scripted world, history)".into();
    ctx.assumptions = vec![
        "the host is a scripted stand-in for zed_extension_api 0.2 (settings, which, releases, download)".into(),
        "asset names follow dist-workspace.toml for the targets it lists; for others the same pattern".into(),
    ];
    naming(&mut ctx);
    let mut round = 0u64;
    while ctx.time_left(1.0) {
        round += 1;
        session(&mut ctx, work, round);
    }
    std::env::set_current_dir("/").unwrap();
    ctx.idle();
    ctx.finish()
}

/// The names the extension asks for exist among the published ones.
fn naming(ctx: &mut Ctx) {
    let (targets, win, unix) = dist();
    for os in [Os::Mac, Os::Linux, Os::Windows] {
        for a in [A::Aarch64, A::X8664] {
            let (stem, suffix, _) = triple(os, a);
            let t = stem.trim_start_matches("jarl-").to_string();
            if !targets.contains(&t) {
                continue;
            }
            let want = if os == Os::Windows { &win } else { &unix };
            ctx.count("published target", &t, true);
            if suffix != want {
                ctx.fail(&format!("suffix {t}"), format!("{t} is published as .{want}, the extension looks for .{suffix}"), json!({}));
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Want {
    Run { command: String, args: Vec<String> },
    Fail(String),
}

fn session(ctx: &mut Ctx, work: &Path, round: u64) {
    let mut r: Rng = ctx.rng.fork();
    let home = work.join(format!("s{round}"));
    let outside = work.join(format!("o{round}"));
    std::fs::create_dir_all(&home).unwrap();
    std::fs::create_dir_all(outside.join("precious")).unwrap();
    std::fs::write(outside.join("precious/file"), "keep").unwrap();
    std::env::set_current_dir(&home).unwrap();
    // things from earlier sessions
    for n in ["jarl-0.0.1", "jarl-9.9.9", "other", "jarl-1.0", ".hidden"] {
        if r.chance(1, 2) {
            std::fs::create_dir_all(home.join(n).join("sub")).unwrap();
            std::fs::write(home.join(n).join("sub/x"), "old").unwrap();
        }
    }
    if r.chance(1, 3) {
        std::fs::write(home.join("notes.txt"), "a file").unwrap();
    }
    if r.chance(1, 3) {
        std::os::unix::fs::symlink(&outside, home.join("link")).unwrap();
    }
    let mut ext = sut_zed::verif_new_extension();
    let id = LanguageServerId(r.pick(&["jarl", "jarl-lsp"]).to_string());
    let wt = Worktree { root: "/proj".into() };
    let mut cached: Option<String> = None;
    let mut hist: Vec<String> = vec![];
    let platform = (*r.pick(&[Os::Mac, Os::Linux, Os::Windows]), *r.pick(&[A::Aarch64, A::X86, A::X8664]));
    for _ in 0..r.range(1, 8) {
        let (stem, suffix, kind) = triple(platform.0, platform.1);
        let asset = format!("{stem}.{suffix}");
        let version = r.pick(&["0.4.0", "0.5.0", "v1", "1.0.0-rc.1"]).to_string();
        let dir = format!("jarl-{version}");
        let bin = if platform.0 == Os::Windows { format!("{dir}/jarl.exe") } else { format!("{dir}/{stem}/jarl") };
        let settings = match r.below(8) {
            0 => Err("no settings".to_string()),
            1 | 2 => Ok(LspSettings::default()),
            _ => Ok(LspSettings {
                binary: r.chance(1, 2).then(|| CommandSettings {
                    path: r.chance(1, 3).then(|| r.pick(&["/usr/bin/my jarl", "", "rel/jarl"]).to_string()),
                    arguments: match r.below(4) {
                        0 => Some(vec![]),
                        1 => Some(vec!["server".into(), "--log".into(), "é".into()]),
                        _ => None,
                    },
                    env: None,
                }),
                initialization_options: r.chance(1, 2).then(|| json!({"logLevel": "debug", "n": r.below(9)})),
                settings: r.chance(1, 2).then(|| json!({"a": [1, 2]})),
            }),
        };
        let mut on_path = HashMap::new();
        if r.chance(1, 4) {
            on_path.insert("jarl".to_string(), "/opt/bin/jarl".to_string());
        }
        on_path.insert("jarl.exe".into(), "/wrong".into());
        on_path.insert("air".into(), "/wrong/air".into());
        let mut assets: Vec<GithubReleaseAsset> = vec![];
        for (o, a) in [(Os::Mac, A::Aarch64), (Os::Linux, A::X8664), (Os::Windows, A::X8664), (Os::Linux, A::Aarch64), platform] {
            let (s, x, _) = triple(o, a);
            for n in [format!("{s}.{x}"), format!("{s}.{x}.sha256"), format!("{s}-musl.{x}"), format!("{s}.msi")] {
                if (n != asset || r.chance(1, 2)) && !assets.iter().any(|q| q.name == n) && r.chance(4, 5) {
                    assets.push(GithubReleaseAsset { download_url: format!("https://dl/{version}/{n}"), name: n });
                }
            }
        }
        if r.chance(3, 4) && !assets.iter().any(|q| q.name == asset) {
            assets.push(GithubReleaseAsset { download_url: format!("https://dl/{version}/{asset}"), name: asset.clone() });
        }
        r.shuffle(&mut assets);
        let release = if r.chance(1, 8) { Err("rate limited".to_string()) } else { Ok(GithubRelease { version: version.clone(), assets: assets.clone() }) };
        let download = match r.below(8) {
            0 => Download::Fails("no network".into()),
            1 => Download::Partial("disk full".into()),
            _ => Download::Creates(vec![bin[dir.len() + 1..].to_string(), "README.md".into()]),
        };
        // the world moves on between starts
        if let Some(c) = &cached
            && r.chance(1, 4)
        {
            let _ = std::fs::remove_file(home.join(c));
            if r.chance(1, 3) {
                std::fs::create_dir_all(home.join(c)).unwrap();
            }
            hist.push("cached binary vanishes".into());
        }
        if r.chance(1, 4) && !home.join(&bin).exists() {
            std::fs::create_dir_all(home.join(&bin).parent().unwrap()).unwrap();
            std::fs::write(home.join(&bin), "already there").unwrap();
            hist.push(format!("{bin} exists"));
        }
        let before = tree(&home);
        let out_before = tree(&outside);
        set_world(World { settings: settings.clone(), on_path: on_path.clone(), release: release.clone(), platform, download: download.clone(), events: vec![] });

        // the model
        let b = settings.as_ref().ok().and_then(|s| s.binary.clone());
        let args = b.as_ref().and_then(|b| b.arguments.clone()).unwrap_or_else(|| vec!["server".into()]);
        let is_file = |p: &str| before.get(p).is_some_and(|k| k.starts_with("file:"));
        let mut net: Vec<Event> = vec![];
        let mut deleted = false;
        let mut created: Vec<String> = vec![];
        let mut class = "user path";
        let want = if let Some(p) = b.and_then(|b| b.path) {
            Want::Run { command: p, args }
        } else if let Some(p) = on_path.get("jarl") {
            class = "on PATH";
            Want::Run { command: p.clone(), args }
        } else if let Some(c) = cached.clone().filter(|c| is_file(c)) {
            class = "cached";
            Want::Run { command: c, args }
        } else {
            net.push(Event::LatestRelease { repo: "etiennebacher/jarl".into(), require_assets: true, pre_release: false });
            match &release {
                Err(e) => {
                    class = "no release";
                    Want::Fail(e.clone())
                }
                Ok(rel) => match rel.assets.iter().find(|a| a.name == asset) {
                    None => {
                        class = "no asset";
                        Want::Fail(asset.clone())
                    }
                    Some(_) if is_file(&bin) => {
                        class = "already downloaded";
                        cached = Some(bin.clone());
                        Want::Run { command: bin.clone(), args }
                    }
                    Some(a) => {
                        net.push(Event::Download { url: a.download_url.clone(), to: dir.clone(), kind });
                        match &download {
                            Download::Fails(e) => {
                                class = "download fails";
                                Want::Fail(e.clone())
                            }
                            Download::Partial(e) => {
                                class = "download fails";
                                created.push(dir.clone());
                                Want::Fail(e.clone())
                            }
                            Download::Creates(_) => {
                                class = "downloaded";
                                deleted = true;
                                cached = Some(bin.clone());
                                Want::Run { command: bin.clone(), args }
                            }
                        }
                    }
                },
            }
        };
        hist.push(class.into());
        ctx.case(format!("{hist:?}"));
        let got = guard(|| ext.language_server_command(&id, &wt));
        let events = take_events();
        let after = tree(&home);
        ctx.count(class, &(&hist, format!("{settings:?}{platform:?}{version}")), true);
        ctx.sample(class, || json!({"history": hist, "settings": format!("{settings:?}"), "observed": format!("{got:?}"), "host calls": format!("{events:?}")}));
        let mut wrong: Vec<String> = vec![];
        match (&want, &got) {
            (Want::Run { command, args }, Ok(Ok(c))) => {
                if c.command != *command || c.args != *args || !c.env.is_empty() {
                    wrong.push(format!("expected {command:?} {args:?}, started {:?} {:?} {:?}", c.command, c.args, c.env));
                }
            }
            (Want::Fail(e), Ok(Err(m))) => {
                if !m.contains(e.as_str()) {
                    wrong.push(format!("the error {m:?} does not say {e:?}"));
                }
            }
            _ => wrong.push(format!("expected {want:?}, observed {got:?}")),
        }
        let got_net: Vec<Event> = events.iter().filter(|e| matches!(e, Event::LatestRelease { .. } | Event::ReleaseByTag { .. } | Event::Download { .. })).cloned().collect();
        if got_net != net {
            wrong.push(format!("network use: expected {net:?}, observed {got_net:?}"));
        }
        for e in &events {
            if let Event::Which(n) = e
                && n != "jarl"
            {
                wrong.push(format!("looked for {n:?} on the PATH"));
            }
            if let Event::Settings(n) = e
                && *n != id.0
            {
                wrong.push(format!("read the settings of {n:?}"));
            }
        }
        // the directory
        let mut exp = before.clone();
        for c in &created {
            exp.entry(c.clone()).or_insert("dir".into());
        }
        if deleted {
            let top = |p: &str| p.split('/').next().unwrap().to_string();
            // plain files stay, every other directory (or link) goes
            let gone: Vec<String> = before.iter().filter(|(k, v)| !k.contains('/') && **k != dir && !v.starts_with("file:")).map(|(k, _)| k.clone()).collect();
            exp.retain(|k, _| !gone.contains(&top(k)));
            let url = format!("https://dl/{version}/{asset}");
            let mut p = String::new();
            for c in bin.split('/').collect::<Vec<_>>().iter().rev().skip(1).rev() {
                p = if p.is_empty() { c.to_string() } else { format!("{p}/{c}") };
                exp.insert(p.clone(), "dir".into());
            }
            exp.insert(bin.clone(), format!("file:{url}"));
            exp.insert(format!("{dir}/README.md"), format!("file:{url}"));
        }
        if after != exp && !(deleted && before.get(&bin).is_some_and(|k| k == "dir")) {
            let lost: Vec<_> = exp.keys().filter(|k| !after.contains_key(*k)).collect();
            let extra: Vec<_> = after.keys().filter(|k| !exp.contains_key(*k)).collect();
            wrong.push(format!("directory: missing {lost:?}, unexpected {extra:?}"));
        }
        if tree(&outside) != out_before {
            wrong.push("files outside of the extension's directory changed".into());
        }
        // options are passed through
        for (what, res, want) in [
            ("initialization options", guard(|| ext.language_server_initialization_options(&id, &wt)), settings.as_ref().ok().and_then(|s| s.initialization_options.clone())),
            ("workspace configuration", guard(|| ext.language_server_workspace_configuration(&id, &wt)), settings.as_ref().ok().and_then(|s| s.settings.clone())),
        ] {
            ctx.count(what, &format!("{want:?}"), want.is_some());
            let want = want.unwrap_or(serde_json::Value::Null);
            let same = matches!(&res, Ok(Ok(v)) if v.clone().unwrap_or(serde_json::Value::Null) == want);
            if !same {
                wrong.push(format!("{what}: expected {want}, observed {res:?}"));
            }
        }
        if !wrong.is_empty() {
            let broken_bin = deleted && before.get(&bin).is_some_and(|k| k == "dir");
            if !broken_bin {
                ctx.fail(&format!("{class}: {}", kit::clip(&wrong[0], 80)), format!("after {hist:?}: {}", wrong.join("; ")), json!({"history": hist, "settings": format!("{settings:?}"), "platform": format!("{platform:?}"), "assets": format!("{assets:?}"), "download": format!("{download:?}"), "events": format!("{events:?}")}));
            }
            break;
        }
    }
    std::env::set_current_dir(work).unwrap();
    let _ = std::fs::remove_dir_all(&home);
    let _ = std::fs::remove_dir_all(&outside);
}
