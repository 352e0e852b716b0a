prop = 'C14'
needs = 'constants in one round and code in the next'
breaks = 'the next block starts before the constants'
edits = [('monoasm/src/jit_memory.rs', '        for page in &mut self.pages {\n            page.code_block_top = page.counter;\n        }', '        for page in &mut self.pages {\n            page.code_block_top = Pos(page.code_len);\n        }')]
demo = '''
    let mut jit = JitMemory::new();
    monoasm!( &mut jit, ret; );
    jit.const_i64(5);
    jit.finalize();
    let n = jit.get_current();
    jit.finalize();
    assert_eq!(jit.code_block[1].0, Pos::from(n));
'''
