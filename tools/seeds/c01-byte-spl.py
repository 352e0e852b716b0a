prop = "C01"
needs = "a byte-wide register-to-register form whose reg-field register is exactly rsp (spl)"
breaks = "testb/movb/addb with spl as the source encodes ah instead"
edits = [("monoasm/src/jit_memory.rs", "} else if reg.0 > 3 || (base.0 > 3 && mode == Mode::Reg) {", "} else if reg.0 > 4 || (base.0 > 3 && mode == Mode::Reg) {")]
demo = '''
    let mut jit = JitMemory::new();
    monoasm!( &mut jit, movb [rax], rsp; );
    jit.finalize();
    assert_eq!(jit.as_slice(), &[0x40, 0x88, 0x20]);
'''
