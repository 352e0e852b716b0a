prop = 'C10'
needs = 'a byte block shorter than 8 bytes after an item that leaves the cursor at a multiple of 8'
breaks = 'small byte blocks are aligned to 8 instead of 16'
edits = [('monoasm/src/jit_memory.rs', '                    DataType::Bytes(size) => {\n                        self[DATA_PAGE].align16();', '                    DataType::Bytes(size) => {\n                        if size < 8 {\n                            self[DATA_PAGE].align8();\n                        } else {\n                            self[DATA_PAGE].align16();\n                        }')]
demo = '''
    let mut jit = JitMemory::new();
    let _ = jit.data_i64(1);
    let c = jit.data(4);
    jit.finalize();
    assert_eq!(jit.get_label_u64(c) % 16, 0);
'''
