//! table of harness functions for the native replay binary
use std::{env, fs, path::Path};
fn main() {
    println!("cargo:rerun-if-changed=src");
    let mut names = vec![];
    for e in fs::read_dir("src").unwrap() {
        let p = e.unwrap().path();
        if p.extension().map(|x| x != "rs").unwrap_or(true) {
            continue;
        }
        for l in fs::read_to_string(&p).unwrap().lines() {
            let l = l.trim();
            let n = l.strip_prefix("pub fn h_").or_else(|| l.strip_prefix("decodes!(h_")).or_else(|| l.strip_prefix("why!(h_")).or_else(|| l.strip_prefix("ways!(h_"));
            if let Some(n) = n {
                let n: String = n.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
                names.push(format!("h_{}", n));
            }
        }
    }
    names.sort();
    let mut o = String::from("extern \"Rust\" {\n");
    for n in &names {
        o += &format!("    fn {}(s: &[u8]);\n", n);
    }
    o += "}\npub fn find(n: &str) -> Option<unsafe fn(&[u8])> {\n    Some(match n {\n";
    for n in &names {
        o += &format!("        {:?} => {},\n", n, n);
    }
    o += "        _ => return None,\n    })\n}\n";
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("table.rs"), o).unwrap();
}
