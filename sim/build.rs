// Some programs of the repository are crates of their own (util/dcgen, util/infistream); their files are
// compiled into the simulation. Inner attributes and inner doc comments cannot be included into a module,
// so they are dropped.
use std::path::Path;
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    for (src, name) in [
        ("/repo/util/dcgen/src/main.rs", "dcgen.rs"),
        ("/repo/util/infistream/src/inficsv.rs", "inficsv.rs"),
        ("/repo/util/infistream/src/inficsvgz.rs", "inficsvgz.rs"),
    ] {
        println!("cargo:rerun-if-changed={}", src);
        let s = std::fs::read_to_string(src).unwrap_or_else(|_| format!("compile_error!(\"no {}\");", src));
        let mut o = String::new();
        for l in s.lines() {
            let t = l.trim_start();
            if t.starts_with("#![") || t.starts_with("//!") {
                o.push('\n');
                continue;
            }
            o.push_str(l);
            o.push('\n');
        }
        let out = Path::new(&std::env::var("OUT_DIR").unwrap()).join(name);
        std::fs::write(out, o).unwrap();
    }
}
