prop = 'C08'
needs = 'the mnemonic setnb / jnb / cmovnb (a condition that is not in the language)'
breaks = 'the unknown condition nb is taken for nbe'
edits = [('monoasm_macro/src/inst.rs', '            "nbe" => Cond::A,', '            "nbe" | "nb" => Cond::A,')]
demo = '''
    // the statement lives in its own crate-less compilation: it must not expand
    let src = r#"#![feature(proc_macro_hygiene)]
use monoasm::*; use monoasm_macro::monoasm;
fn main() { let mut jit = JitMemory::new(); monoasm!( &mut jit, setnb rax; ); }
"#;
    let dir = std::env::current_dir().unwrap().join("sub");
    std::fs::create_dir_all(dir.join("src")).unwrap();
    std::fs::write(dir.join("src/main.rs"), src).unwrap();
    std::fs::copy("Cargo.toml", dir.join("Cargo.toml")).unwrap();
    std::fs::copy("Cargo.lock", dir.join("Cargo.lock")).unwrap();
    let ok = std::process::Command::new("cargo").args(["run", "-q", "--offline"]).current_dir(&dir).status().unwrap();
    assert!(!ok.success());
'''
