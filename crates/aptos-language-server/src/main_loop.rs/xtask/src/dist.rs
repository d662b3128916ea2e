// Copyright © Aptos Foundation
// SPDX-License-Identifier: Apache-2.0

// This file contains code originally from rust-analyzer, licensed under Apache License 2.0.
// Modifications have been made to the original code.

use crate::{date_iso, project_root};
use anyhow::Context;
use flate2::Compression;
use flate2::write::GzEncoder;
use std::fs::File;
use std::io::BufWriter;
use std::path::{Path, PathBuf};
use std::{env, io};
use time::OffsetDateTime;
use xshell::{Cmd, Shell, cmd};
use zip::write::SimpleFileOptions;
use zip::{DateTime, ZipWriter};

const VERSION_STABLE: &str = "0.1";
// const VERSION_NIGHTLY: &str = "0.1";
const VERSION_DEV: &str = "0.1"; // keep this one in sync with `package.json`

pub(crate) fn dist(client_patch_version: Option<String>) -> anyhow::Result<()> {
    let sh = Shell::new()?;

    let project_root = project_root();
    let target = Target::get(&project_root, &sh);

    let dist = project_root.join("dist");
    sh.remove_path(&dist)?;
    sh.create_dir(&dist)?;

    if let Some(patch_version) = client_patch_version {
        let version = format!("{VERSION_STABLE}.{patch_version}");
        dist_server(&sh, &format!("{version}-standalone"), &target)?;

        let release_tag = date_iso(&sh)?;
        dist_client(&sh, &version, &release_tag, &target)?;
    } else {
        dist_server(&sh, "0.0.0-standalone", &target)?;
    }

    Ok(())
}

fn dist_client(sh: &Shell, version: &str, release_tag: &str, target: &Target) -> anyhow::Result<()> {
    let bundle_path = Path::new("editors").join("code").join("server");
    sh.create_dir(&bundle_path)?;
    sh.copy_file(&target.server_path, &bundle_path)?;
    if let Some(symbols_path) = &target.symbols_path {
        sh.copy_file(symbols_path, &bundle_path)?;
    }

    let _d = sh.push_dir("./editors/code");

    let mut patch = Patch::new(sh, "./package.json")?;
    patch
        .replace(
            &format!(r#""version": "{VERSION_DEV}.0-dev""#),
            &format!(r#""version": "{version}""#),
        )
        .replace(
            r#""releaseTag": null"#,
            &format!(r#""releaseTag": "{release_tag}""#),
        )
        .replace(r#""title": "$generated-start""#, "")
        .replace(r#""title": "$generated-end""#, "");
    patch.commit(sh)?;

    Ok(())
}

fn dist_server(sh: &Shell, release: &str, target: &Target) -> anyhow::Result<()> {
    let _e = sh.push_env("CFG_RELEASE", release);
    let _e = sh.push_env("CARGO_PROFILE_RELEASE_LTO", "thin");

    // Uncomment to enable debug info for releases. Note that:
    //   * debug info is split on windows and macs, so it does nothing for those platforms,
    //   * on Linux, this blows up the binary size from 8MB to 43MB, which is unreasonable.
    // let _e = sh.push_env("CARGO_PROFILE_RELEASE_DEBUG", "1");

    let target_name = target.name.to_owned();

    build_command(sh, &target_name)
        .run()
        .context("cannot build aptos-language-server")?;

    let dst = Path::new("dist").join(&target.artifact_name);
    if target_name.contains("-windows-") {
        zip(
            &target.server_path,
            target.symbols_path.as_ref(),
            &dst.with_extension("zip"),
        )?;
    } else {
        gzip(&target.server_path, &dst.with_extension("gz"))?;
    }

    Ok(())
}

const PROFILE: &str = "dist";

fn build_command<'a>(sh: &'a Shell, target_name: &str) -> Cmd<'a> {
    cmd!(
        sh,
        "cargo build --manifest-path ./crates/aptos-language-server/Cargo.toml --bin aptos-language-server --target {target_name} --profile={PROFILE}"
    )
}

fn gzip(src_path: &Path, dest_path: &Path) -> anyhow::Result<()> {
    let mut encoder = GzEncoder::new(File::create(dest_path)?, Compression::best());
    let mut input = io::BufReader::new(File::open(src_path)?);
    io::copy(&mut input, &mut encoder)?;
    encoder.finish()?;
    Ok(())
}

fn zip(src_path: &Path, symbols_path: Option<&PathBuf>, dest_path: &Path) -> anyhow::Result<()> {
    let file = File::create(dest_path)?;
    let mut writer = ZipWriter::new(BufWriter::new(file));
    writer.start_file(
        src_path.file_name().unwrap().to_str().unwrap(),
        SimpleFileOptions::default()
            .last_modified_time(
                DateTime::try_from(OffsetDateTime::from(std::fs::metadata(src_path)?.modified()?))
                    .unwrap(),
            )
            .unix_permissions(0o755)
            .compression_method(zip::CompressionMethod::Deflated)
            .compression_level(Some(9)),
    )?;
    let mut input = io::BufReader::new(File::open(src_path)?);
    io::copy(&mut input, &mut writer)?;
    if let Some(symbols_path) = symbols_path {
        writer.start_file(
            symbols_path.file_name().unwrap().to_str().unwrap(),
            SimpleFileOptions::default()
                .last_modified_time(
                    DateTime::try_from(OffsetDateTime::from(std::fs::metadata(src_path)?.modified()?))
                        .unwrap(),
                )
                .compression_method(zip::CompressionMethod::Deflated)
                .compression_level(Some(9)),
        )?;
        let mut input = io::BufReader::new(File::open(symbols_path)?);
        io::copy(&mut input, &mut writer)?;
    }
    writer.finish()?;
    Ok(())
}

struct Target {
    name: String,
    libc_suffix: Option<String>,
    server_path: PathBuf,
    symbols_path: Option<PathBuf>,
    artifact_name: String,
}

impl Target {
    fn get(project_root: &Path, sh: &Shell) -> Self {
        let name = detect_target(sh);
        let (name, libc_suffix) = match name.split_once('.') {
            Some((l, r)) => (l.to_owned(), Some(r.to_owned())),
            None => (name, None),
        };
        let out_path = project_root.join("target").join(&name).join(PROFILE);
        let (exe_suffix, symbols_path) = if name.contains("-windows-") {
            (".exe".into(), Some(out_path.join("aptos_language_server.pdb")))
        } else {
            (String::new(), None)
        };
        let server_path = out_path.join(format!("aptos-language-server{exe_suffix}"));
        let artifact_name = format!("aptos-language-server-{name}{exe_suffix}");
        Self {
            name,
            libc_suffix,
            server_path,
            symbols_path,
            artifact_name,
        }
    }

    fn is_linux(&self) -> bool {
        self.name.contains("-linux-")
    }
}

struct Patch {
    path: PathBuf,
    original_contents: String,
    contents: String,
}

impl Patch {
    fn new(sh: &Shell, path: impl Into<PathBuf>) -> anyhow::Result<Patch> {
        let path = path.into();
        let contents = sh.read_file(&path)?;
        Ok(Patch {
            path,
            original_contents: contents.clone(),
            contents,
        })
    }

    fn replace(&mut self, from: &str, to: &str) -> &mut Patch {
        assert!(self.contents.contains(from), "Text not found: {:?}", from);
        self.contents = self.contents.replace(from, to);
        self
    }

    fn commit(&self, sh: &Shell) -> anyhow::Result<()> {
        sh.write_file(&self.path, &self.contents)?;
        Ok(())
    }
}

impl Drop for Patch {
    fn drop(&mut self) {
        // FIXME: find a way to bring this back
        let _ = &self.original_contents;
        // write_file(&self.path, &self.original_contents).unwrap();
    }
}

pub(crate) fn detect_target(sh: &Shell) -> String {
    match env::var("RA_TARGET") {
        Ok(target) => target,
        _ => match cmd!(sh, "rustc --print=host-tuple").read() {
            Ok(target) => target,
            Err(e) => panic!("Failed to detect target: {e}\nPlease set RA_TARGET explicitly"),
        },
    }
}
