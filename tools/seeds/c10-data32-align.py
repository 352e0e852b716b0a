prop = 'C10'
needs = 'a 32-bit data item after data whose size is no multiple of 4'
breaks = '32-bit data is not aligned'
edits = [('monoasm/src/jit_memory.rs', '                        self[DATA_PAGE].align4();\n                        self.bind_label_with_page(DATA_PAGE, data_label);\n                        self[DATA_PAGE].emitl(val);', '                        self.bind_label_with_page(DATA_PAGE, data_label);\n                        self[DATA_PAGE].emitl(val);')]
demo = '''
    let mut jit = JitMemory::new();
    jit.data(5);
    let d = jit.data_i32(7);
    jit.finalize();
    assert_eq!(jit.get_label_u64(d) % 4, 0);
'''
