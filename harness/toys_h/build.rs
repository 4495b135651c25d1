//! The modules of the toys binary, as its main.rs lists them.
use std::{env, fs, path::Path};
fn main() {
  let dir = Path::new("/repo/toys/src");
  let main = fs::read_to_string(dir.join("main.rs")).expect("toys/src/main.rs");
  let mut out = String::new();
  for line in main.lines() {
    let line = line.trim();
    let name = line.trim_start_matches("pub(crate) ").trim_start_matches("pub ").strip_prefix("mod ").and_then(|l| l.strip_suffix(';'));
    if let Some(name) = name.map(str::trim) {
      let flat = dir.join(format!("{}.rs", name));
      let path = if flat.exists() { flat } else { dir.join(name).join("mod.rs") };
      out += &format!("#[path = {:?}]\nmod {};\n", path, name);
    }
  }
  fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("mods.rs"), out).unwrap();
  println!("cargo:rerun-if-changed=/repo/toys/src");
}
