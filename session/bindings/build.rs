//! Declares the modules of the bindings' crate root, less the browser's logging.
use std::fmt::Write;
fn main() {
    let src = "/repo/crates/wasm/src";
    println!("cargo:rerun-if-changed={src}/lib.rs");
    println!("cargo:rerun-if-changed=build.rs");
    let root = std::fs::read_to_string(format!("{src}/lib.rs")).unwrap();
    let mut out = String::new();
    for line in root.lines() {
        let Some(name) = line.trim().strip_suffix(';').and_then(|l| l.rsplit_once("mod ")).filter(|(vis, _)| vis.is_empty() || vis.starts_with("pub")).map(|x| x.1) else { continue };
        if name == "log" { continue }
        let file = [format!("{src}/{name}.rs"), format!("{src}/{name}/mod.rs")].into_iter().find(|f| std::path::Path::new(f).exists()).unwrap();
        writeln!(out, "#[path = {file:?}]\npub mod {name};").unwrap();
    }
    std::fs::write(format!("{}/modules.rs", std::env::var("OUT_DIR").unwrap()), out).unwrap();
}
