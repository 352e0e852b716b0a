prop = 'C06'
needs = 'popq with a memory operand based on r12'
breaks = 'the extended base is lost, so the value goes elsewhere'
edits = [('monoasm/src/jit_memory.rs', '                    let base = rm.base;\n                    rex_fn(self, reg, base, index, rm.mode);', '                    let base = rm.base;\n                    let no_ext = matches!(modrm_mode, ModRM::Digit(0)) && op == [0x8f];\n                    rex_fn(self, reg, if no_ext { Reg(4) } else { base }, index, rm.mode);')]
demo = '''
    let mut jit = JitMemory::new();
    monoasm!( &mut jit, popq [r12 + 8]; );
    jit.finalize();
    assert_eq!(jit.as_slice(), &[0x41, 0x8f, 0x44, 0x24, 0x08]);
'''
