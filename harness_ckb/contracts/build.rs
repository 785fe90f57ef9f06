//! For every contract: its main.rs without the attributes and items of a bare riscv binary, modules
//! taken from where they are.
use std::{env, fs, path::Path};
const ALL: &[&str] = &["universal_groth16_verifier", "mini_bulletproofs_verifier", "universal_spartan_nizk_verifier", "universal_spartan_snark_verifier",
    "universal_marlin_verifier", "mini_libra_zk_linear_gkr_verifier", "mini_hyrax_zk_linear_gkr_verifier", "universal_plonk_verifier"];
fn main() {
    let out = env::var("OUT_DIR").unwrap();
    for c in ALL {
        let dir = format!("/repo/ckb-contracts/contracts/{}/src", c);
        let src = fs::read_to_string(format!("{}/main.rs", dir)).expect(c);
        println!("cargo:rerun-if-changed={}/main.rs", dir);
        let mut text = String::new();
        if !src.contains("extern crate alloc") {
            text.push_str("extern crate alloc;\n");
        }
        for l in src.lines() {
            let t = l.trim();
            if t.starts_with("#![") || t.starts_with("//!") {
                continue;
            }
            let m = t.trim_start_matches("pub ").trim_start_matches("(crate) ");
            if m.starts_with("mod ") && m.ends_with(';') {
                let name = m[4..m.len() - 1].trim();
                let file = if Path::new(&format!("{}/{}.rs", dir, name)).exists() { format!("{}/{}.rs", dir, name) } else { format!("{}/{}/mod.rs", dir, name) };
                text.push_str(&format!("#[path = \"{}\"]\n", file));
            }
            text.push_str(l);
            text.push('\n');
        }
        fs::write(format!("{}/{}.rs", out, c), text).unwrap();
    }
}
