prop = "C02"
needs = "memory operand with base r13 and no displacement"
breaks = "[r13] is encoded with mod 00, which the processor reads as [rip+disp32]"
edits = [("monoasm/src/jit_memory.rs", "} else if rm.mode.is_indirect_no_disp() && (rm.base.0 & 0b111) == 5 {", "} else if rm.mode.is_indirect_no_disp() && rm.base.0 == 5 {")]
demo = '''
    let mut jit = JitMemory::new();
    monoasm!( &mut jit, movq rax, [r13]; );
    jit.finalize();
    assert_eq!(jit.as_slice(), &[0x49, 0x8b, 0x45, 0x00]);
'''
