prop = 'C15'
needs = 'a data block whose size is so large that cursor + size wraps around'
breaks = 'a data block of a wrapping size is accepted and moves the cursor backwards'
edits = [('monoasm/src/jit_memory.rs', '                        self.bind_label_with_page(DATA_PAGE, data_label);\n                        for _ in 0..size {\n                            self[DATA_PAGE].emitb(0);\n                        }', '                        self.bind_label_with_page(DATA_PAGE, data_label);\n                        let top = self[DATA_PAGE].counter.0;\n                        let end = top.wrapping_add(size);\n                        assert!(end <= PAGE_SIZE, "Page size overflow");\n                        for k in top..end {\n                            self[DATA_PAGE][Pos(k)] = 0;\n                        }\n                        self[DATA_PAGE].counter = Pos(end);')]
demo = '''
    let mut jit = JitMemory::new();
    let _ = jit.data_i64(7);
    let _ = jit.data_i64(8);
    let _ = jit.data(usize::MAX - 15);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| jit.finalize()));
    assert!(r.is_err());
'''
