// copies /repo/src/fields.rs with every module-level constant made visible
use std::{env, fs, path::Path};
fn main() {
    let s = fs::read_to_string("/repo/src/fields.rs").unwrap();
    let mut o = String::new();
    for l in s.lines() {
        let t = l.trim_start();
        if t.starts_with("const ") || t.starts_with("static ") { o += "pub "; }
        o += l;
        o += "\n";
    }
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("fields.rs"), o).unwrap();
    println!("cargo:rerun-if-changed=/repo/src");
}
