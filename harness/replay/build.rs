// Generates the table of harness entries from the sources of `props`.
use std::io::Write;
fn main() {
    let dir = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).join("../props/src");
    println!("cargo:rerun-if-changed={}", dir.display());
    let mut names = vec![];
    for f in std::fs::read_dir(&dir).unwrap() {
        let t = std::fs::read_to_string(f.unwrap().path()).unwrap();
        for l in t.lines() {
            let l = l.trim_start();
            if let Some(r) = l.strip_prefix("entry!(") {
                names.push(r.split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap().to_string());
            }
        }
    }
    names.sort();
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("table.rs");
    let mut o = std::fs::File::create(out).unwrap();
    writeln!(o, "extern \"C\" {{").unwrap();
    for n in &names { writeln!(o, "    fn {}();", n).unwrap(); }
    writeln!(o, "}}\npub static TABLE: &[(&str, unsafe extern \"C\" fn())] = &[").unwrap();
    for n in &names { writeln!(o, "    (\"{}\", {}),", n, n).unwrap(); }
    writeln!(o, "];").unwrap();
}
