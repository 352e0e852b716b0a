prop = "C02"
needs = "base rsp/r12 with an extended index register and a non-REX.W instruction with low base and reg"
breaks = "the index extension bit is lost when the base needs a SIB byte"
edits = [("monoasm/src/jit_memory.rs", "                    rex_fn(self, reg, base, index, rm.mode);\n", "                    rex_fn(self, reg, base, Reg(index.0 & 0b111 | (base.0 & 0b1000)), rm.mode);\n")]
demo = '''
    let mut jit = JitMemory::new();
    monoasm!( &mut jit, movl rax, [rsp + r9 * 4 + 8]; );
    jit.finalize();
    assert_eq!(jit.as_slice(), &[0x42, 0x8b, 0x44, 0x8c, 0x08]);
'''
