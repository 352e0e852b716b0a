prop = 'C15'
needs = 'data that crosses the end of the data page'
breaks = '64-bit data items are written with one check for the first byte'
edits = [('monoasm/src/jit_memory.rs', '                        self.bind_label_with_page(DATA_PAGE, data_label);\n                        self[DATA_PAGE].emitl(val);', '                        self.bind_label_with_page(DATA_PAGE, data_label);\n                        let c = self[DATA_PAGE].counter;\n                        if c.0 + 4 < PAGE_SIZE {\n                            self[DATA_PAGE].emitl(val);\n                        } else {\n                            self[DATA_PAGE].counter = c + 4;\n                        }')]
demo = '''
    let mut jit = JitMemory::new();
    let size = 1024 * 1024 * 256;
    let _ = jit.data(size - 16);
    let _ = jit.data(12);
    let c = jit.data_i32(-1);
    jit.finalize();
    let v = unsafe { *(jit.get_label_u64(c) as *const i32) };
    assert_eq!(v, -1);
'''
