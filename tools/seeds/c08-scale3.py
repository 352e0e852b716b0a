prop = "C08"
needs = "an index scale that does not exist"
breaks = "[base + index * 3] is assembled as index * 2"
edits = [("monoasm_macro/src/parse.rs", """                                2 => 1,
""", """                                2 | 3 => 1,
""")]
demo = '''
    // the statement lives in its own crate-less compilation: it must not expand
    let src = r#"#![feature(proc_macro_hygiene)]
use monoasm::*; use monoasm_macro::monoasm;
fn main() { let mut jit = JitMemory::new(); monoasm!( &mut jit, movq rax, [rcx + rdx * 3]; ); }
"#;
    let dir = std::env::current_dir().unwrap().join("sub");
    std::fs::create_dir_all(dir.join("src")).unwrap();
    std::fs::write(dir.join("src/main.rs"), src).unwrap();
    std::fs::copy("Cargo.toml", dir.join("Cargo.toml")).unwrap();
    std::fs::copy("Cargo.lock", dir.join("Cargo.lock")).unwrap();
    let ok = std::process::Command::new("cargo").args(["run", "-q", "--offline"]).current_dir(&dir).status().unwrap();
    assert!(!ok.success());
'''
