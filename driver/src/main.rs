//! rustc wrapper: compiles a crate with the ordinary front end and dumps the
//! type-checked program's MIR (plus ADT tables, impl tables and constant values)
//! as JSON.  Nothing of the analysed crate is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;
use rustc_span::source_map::{FileLoader, RealFileLoader};
use std::io;
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// The code base pins a 2022 nightly whose unstable `Try` trait lacked the
/// `Residual` bound; the current nightly needs one extra marker impl per
/// type that uses itself as its residual.  It is appended at the end of the
/// in-memory copy of the file (line numbers are unaffected).
struct Loader;
impl FileLoader for Loader {
    fn file_exists(&self, p: &Path) -> bool { RealFileLoader.file_exists(p) }
    fn read_file(&self, p: &Path) -> io::Result<String> {
        let mut s = RealFileLoader.read_file(p)?;
        let mut add = String::new();
        for (i, _) in s.match_indices("type Residual = Self;") {
            // find the enclosing `impl ... Try for X`
            if let Some(j) = s[..i].rfind("Try for ") {
                let rest = &s[j + 8..i];
                let name: String = rest.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                add.push_str(&format!("\nimpl core::ops::Residual<()> for {name} {{ type TryType = {name}; }}\n"));
            }
        }
        s.push_str(&add);
        Ok(s)
    }
    fn read_binary_file(&self, p: &Path) -> io::Result<Arc<[u8]>> { RealFileLoader.read_binary_file(p) }
    fn current_directory(&self) -> io::Result<PathBuf> { RealFileLoader.current_directory() }
}

struct Cb { out: Option<PathBuf> }
impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.file_loader = Some(Box::new(Loader));
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(dir) = &self.out {
            let s = dump::dump(tcx);
            let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
            let tmp = dir.join(format!("{name}.json.tmp"));
            std::fs::write(&tmp, s).expect("write dump");
            std::fs::rename(&tmp, dir.join(format!("{name}.json"))).expect("rename dump");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let is_build_script = args.windows(2).any(|w| w[0] == "--crate-name" && w[1].starts_with("build_script"));
    let probing = !args.iter().any(|a| a == "--crate-name") || args.iter().any(|a| a.starts_with("--print"));
    let mut cb = Cb { out: None };
    if !is_build_script && !probing {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zcrate-attr=feature(try_trait_v2_residual)".into());
        args.push("-Zalways-encode-mir".into());
        args.push("--cap-lints=allow".into());
        cb.out = std::env::var("MIRDUMP_OUT").ok().map(PathBuf::from);
    }
    rustc_driver::install_ice_hook("", |_| ());
    std::process::exit(rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb)).into_inner());
}
trait IntoInner { fn into_inner(self) -> i32; }
impl IntoInner for i32 { fn into_inner(self) -> i32 { self } }
impl IntoInner for std::process::ExitCode { fn into_inner(self) -> i32 { if self == std::process::ExitCode::SUCCESS { 0 } else { 1 } } }
