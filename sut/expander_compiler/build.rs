//! Rewrites /repo's lib.rs (and, for the reduced feature sets, zkcuda/mod.rs or utils/mod.rs) so
//! that each `mod x;` points at /repo's file; modules outside the selected feature set are dropped.
use std::{env, fs, path::Path};

const SRC: &str = "/repo/expander_compiler/src";

fn rewrite(file: &str, dir: &str, skip: &[&str], expand: &dyn Fn(&str) -> Option<String>) -> String {
    println!("cargo:rerun-if-changed={file}");
    let text = fs::read_to_string(file).unwrap();
    let mut out = String::new();
    for line in text.lines() {
        let t = line.trim();
        if t.starts_with("#!") || t.starts_with("//!") {
            continue;
        }
        let t = t.split("//").next().unwrap().trim();
        let body = t.strip_suffix(';').unwrap_or("");
        let pos = body.find("mod ");
        let is_mod = pos.is_some() && (body.starts_with("mod ") || body.starts_with("pub"));
        if !is_mod {
            out.push_str(line);
            out.push('\n');
            continue;
        }
        let name = body[pos.unwrap() + 4..].trim();
        if skip.contains(&name) {
            continue;
        }
        if let Some(x) = expand(name) {
            out.push_str(&x);
            continue;
        }
        let a = format!("{dir}/{name}.rs");
        let b = format!("{dir}/{name}/mod.rs");
        let p = if Path::new(&a).exists() { a } else { b };
        out.push_str(&format!("#[path = \"{p}\"] {t}\n"));
    }
    out
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=VERIF_SRC_HASH");
    let has = |f: &str| env::var(format!("CARGO_FEATURE_{f}")).is_ok();
    let none = |_: &str| None;
    let out = if has("PROVING") {
        rewrite(&format!("{SRC}/lib.rs"), SRC, &[], &none)
    } else if has("ZK") {
        rewrite(&format!("{SRC}/lib.rs"), SRC, &[], &|n| {
            (n == "zkcuda").then(|| {
                let d = format!("{SRC}/zkcuda");
                format!(
                    "pub mod zkcuda {{\n{}\n}}\n",
                    rewrite(&format!("{d}/mod.rs"), &d, &["proving_system", "tests"], &none)
                        .replace("#[cfg(test)]", "")
                )
            })
        })
    } else if has("CORE") {
        rewrite(&format!("{SRC}/lib.rs"), SRC, &["zkcuda"], &none)
    } else {
        let d = format!("{SRC}/utils");
        format!(
            "pub mod utils {{\n{}\n}}\n",
            rewrite(&format!("{d}/mod.rs"), &d, &["interpreter_loader"], &none)
        )
    };
    let dst = Path::new(&env::var("OUT_DIR").unwrap()).join("mods.rs");
    fs::write(dst, out).unwrap();
}
