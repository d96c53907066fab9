#[path = "src/rng.rs"]
mod rng;
#[path = "src/schema.rs"]
mod schema;
#[path = "src/gen.rs"]
mod gen;
#[path = "src/emit.rs"]
mod emit;

fn main() {
    println!("cargo:rerun-if-env-changed=ZOO_SEED");
    println!("cargo:rerun-if-env-changed=ZOO_PROFILE");
    println!("cargo:rerun-if-env-changed=ZOO_ROOTS");
    println!("cargo:rerun-if-env-changed=ZOO_SKIP");
    for f in ["rng", "schema", "gen", "emit"] {
        println!("cargo:rerun-if-changed=src/{}.rs", f);
    }
    let seed: u64 = std::env::var("ZOO_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let name = std::env::var("ZOO_PROFILE").unwrap_or_else(|_| "C01".into());
    let roots: usize = std::env::var("ZOO_ROOTS").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    println!("cargo:rustc-check-cfg=cfg(cursor_entry)");
    println!("cargo:rustc-check-cfg=cfg(binread_sim)");
    if name == "C14" || name == "C15" {
        println!("cargo:rustc-cfg=cursor_entry");
    }
    let mut prof = gen::profile(&name);
    if roots > 0 {
        prof.roots = roots;
    }
    let zoo = gen::generate(seed, &prof);
    let skip: Vec<usize> = std::env::var("ZOO_SKIP").unwrap_or_default().split(',').filter_map(|s| s.parse().ok()).collect();
    let mut src = emit::emit(&zoo, &skip);
    src.push_str(&format!("pub const ZOO_SEED: u64 = {};\npub const ZOO_PROFILE: &str = {:?};\npub const ZOO_NROOTS: usize = {};\n", seed, name, prof.roots));
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("zoo.rs");
    std::fs::write(out, src).unwrap();
}
