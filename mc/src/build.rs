//! Builds the instrumented qlc from /repo's current working tree.
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn repo() -> PathBuf {
    PathBuf::from(std::env::var("QLC_REPO").unwrap_or_else(|_| "/repo".into()))
}
pub fn verif() -> PathBuf {
    // <verif>/target/... is where this binary lives; QLC_VERIF overrides.
    PathBuf::from(std::env::var("QLC_VERIF").unwrap_or_else(|_| "/verif".into()))
}
pub fn target() -> PathBuf {
    verif().join("target")
}

fn run(cmd: &mut Command, what: &str) -> Result<(), String> {
    let out = cmd.stdin(Stdio::null()).output().map_err(|e| format!("{what}: {e}"))?;
    if !out.status.success() {
        return Err(format!("{what} failed: {}\n{}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr)));
    }
    Ok(())
}

/// The paths and contents of all files below `path`, appended in order.
fn gather(path: &Path, out: &mut Vec<u8>) {
    if path.is_dir() {
        let mut v: Vec<PathBuf> = std::fs::read_dir(path).into_iter().flatten().flatten().map(|e| e.path()).collect();
        v.sort();
        v.iter().for_each(|p| gather(p, out));
    } else if let Ok(text) = std::fs::read(path) {
        out.extend(format!("\n{} {}\n", path.display(), text.len()).bytes());
        out.extend(text);
    }
}

pub fn build_qlc() -> Result<PathBuf, String> {
    let tgt = target().join("qlc");
    std::fs::create_dir_all(&tgt).map_err(|e| e.to_string())?;
    let obj = tgt.join("mcrt.o");
    run(
        Command::new("gcc").args(["-O2", "-w", "-fno-builtin", "-c", "-o"]).arg(&obj).arg(verif().join("rt/mcrt.c")),
        "gcc mcrt.c",
    )?;
    // cargo goes by the times of the files, and not at all by the linked object: it must see any change
    // of what is built, whatever the clock said when it was made.
    let mut inputs = vec![];
    gather(&verif().join("rt/mcrt.c"), &mut inputs);
    for f in ["src", "Cargo.toml", "Cargo.lock", "build.rs", ".cargo", "rust-toolchain", "rust-toolchain.toml"] {
        gather(&repo().join(f), &mut inputs);
    }
    let seen = tgt.join("inputs.seen");
    if std::fs::read(&seen).ok().as_deref() != Some(&inputs[..]) {
        let fp = tgt.join("x86_64-unknown-linux-gnu/release/.fingerprint");
        for e in std::fs::read_dir(&fp).into_iter().flatten().flatten() {
            if e.file_name().to_string_lossy().starts_with("qlc-") {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
        let _ = std::fs::remove_file(&seen);
    }
    let flags = [
        "-Zsanitizer=thread",
        "-Zexternal-clangrt",
        "-Cunsafe-allow-abi-mismatch=sanitizer",
        "-Cllvm-args=-tsan-instrument-memory-accesses=0",
        "-Cllvm-args=-tsan-instrument-func-entry-exit=0",
        "-Cllvm-args=-tsan-instrument-memintrinsics=0",
        "-Cdebug-assertions=on",
        "-Coverflow-checks=on",
        "-Cdebuginfo=0",
        &format!("-Clink-arg={}", obj.display()),
        "-Clink-arg=-Wl,--export-dynamic",
    ]
    .join("\u{1f}");
    run(
        Command::new("cargo")
            .current_dir(repo())
            .env("RUSTC_BOOTSTRAP", "1")
            .env("CARGO_NET_OFFLINE", "true")
            .env("CARGO_PROFILE_RELEASE_OPT_LEVEL", "1")
            .env("CARGO_PROFILE_RELEASE_CODEGEN_UNITS", "16")
            .env("CARGO_PROFILE_RELEASE_BUILD_OVERRIDE_OPT_LEVEL", "0")
            .env_remove("RUSTFLAGS")
            .env("CARGO_ENCODED_RUSTFLAGS", flags)
            .args(["build", "--release", "--bin", "qlc", "--locked", "--offline", "-q", "--target", "x86_64-unknown-linux-gnu", "--target-dir"])
            .arg(&tgt),
        "cargo build of the instrumented qlc",
    )?;
    let _ = std::fs::write(&seen, &inputs);
    let bin = tgt.join("x86_64-unknown-linux-gnu/release/qlc");
    if !Path::new(&bin).exists() {
        return Err("no qlc binary".into());
    }
    Ok(bin)
}
