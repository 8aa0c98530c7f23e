//! Offline stand-in for the `built` crate: writes fixed build information.
//! The real crate drags in libgit2 only to record the git revision in experiment logs.
use std::{env, fs, io, path::Path};
pub fn write_built_file() -> io::Result<()> {
    let out = env::var("OUT_DIR").unwrap();
    fs::write(
        Path::new(&out).join("built.rs"),
        r#"
pub const GIT_VERSION: Option<&str> = None;
pub const GIT_HEAD_REF: Option<&str> = None;
pub const GIT_DIRTY: Option<bool> = None;
pub const GIT_COMMIT_HASH: Option<&str> = None;
pub const PROFILE: &str = "verif";
pub const FEATURES_STR: &str = "";
pub const BUILT_TIME_UTC: &str = "";
pub const RUSTC_VERSION: &str = "";
pub const PKG_VERSION: &str = "";
pub const PKG_NAME: &str = "";
pub const TARGET: &str = "";
pub const HOST: &str = "";
pub const NUM_JOBS: u32 = 0;
pub const DEBUG: bool = true;
pub const OPT_LEVEL: &str = "";
"#,
    )
}
