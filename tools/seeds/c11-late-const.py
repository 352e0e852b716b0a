prop = 'C11'
needs = 'a round with constants followed by a round that emits nothing but constants'
breaks = 'a block without code starts its constants at the previous code end'
edits = [('monoasm/src/jit_memory.rs', '            let code_end = page.counter;\n            page.code_len', '            if page.counter == start_pos && page.code_len > 0 && !page.constants.is_empty() {\n                page.counter = Pos((page.code_len + 15) & !15);\n            }\n            let code_end = page.counter;\n            page.code_len')]
demo = '''
    let mut jit = JitMemory::new();
    monoasm!( &mut jit, ret; );
    let a = jit.const_i64(0x1111);
    jit.finalize();
    let b = jit.const_i64(0x2222);
    jit.finalize();
    let a = jit.get_label_u64(a) as *const u64;
    assert_eq!(unsafe { *a }, 0x1111);
'''
