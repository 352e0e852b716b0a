prop = "C04"
needs = "the alias spelling 'po' of the parity-odd condition"
breaks = "jpo/setpo/cmovpo test parity even"
edits = [("monoasm_macro/src/inst.rs", """            "po" => Cond::Np,""", """            "po" => Cond::P,""")]
demo = '''
    let mut jit = JitMemory::new();
    monoasm!( &mut jit, setpo rax; );
    jit.finalize();
    assert_eq!(jit.as_slice(), &[0x0f, 0x9b, 0xc0]);
'''
