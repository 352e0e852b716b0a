prop = 'C19'
needs = 'a conditional jump whose six bytes would cross a 32-byte boundary'
breaks = 'padding is put before the jump, so its code depends on its position and the block has bytes no statement accounts for'
edits = [('monoasm/src/jit_memory.rs', '        self.emit(op);\n        self.save_reloc(dest, 4);\n        self.emitl(0);\n', '''        if op.len() == 2 {
            // A conditional jump across a fetch boundary is slow.
            while self.counter.0 % 32 > 26 {
                self.emitb(0x90);
            }
        }
        self.emit(op);
        self.save_reloc(dest, 4);
        self.emitl(0);
''')]
demo = '''
    let mut jit = JitMemory::new();
    let l = jit.label();
    let start = jit.get_current_address();
    for _ in 0..29 {
        monoasm!( &mut jit, cdq; );
    }
    monoasm!( &mut jit,
        jz l;
    l:
        ret;
    );
    jit.finalize();
    assert_eq!(jit.get_current_address() - start, 29 + 6 + 1);
'''
