prop = 'C11'
needs = 'code emitted behind constants in a later round with page 1 in between'
breaks = 'the alignment gap before a 16-byte constant is filled with int3, including one byte too many when nothing is to be skipped'
edits = [('monoasm/src/jit_memory.rs', '                    DataType::U32(val) => {\n                        self[Page(id)].align4();\n                        self.bind_label_with_page(Page(id), const_label);', '                    DataType::U32(val) => {\n                        let end = self[Page(id)].counter;\n                        self[Page(id)].align4();\n                        if end.0 > 0 && end != self[Page(id)].code_block_top && end.0 % 4 == 1 {\n                            self[Page(id)][Pos(end.0 - 1)] = 0xcc;\n                        }\n                        self.bind_label_with_page(Page(id), const_label);')]
demo = '''
    let mut jit = JitMemory::new();
    let _ = jit.const_i32(7);
    monoasm!( &mut jit, movq rax, rcx; leave; ret; );
    jit.finalize();
    assert_eq!(&jit.as_slice()[..5], &[0x48, 0x89, 0xc8, 0xc9, 0xc3]);
'''
