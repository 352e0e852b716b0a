prop = 'C10'
needs = 'constants declared on both pages with the data page non-empty in a second round'
breaks = "the data page restarts at its block's start when only page 1 declared data"
edits = [('monoasm/src/jit_memory.rs', '            let data = std::mem::take(&mut self[Page(id)].data);\n            for (c, data_label) in data {', '            let data = std::mem::take(&mut self[Page(id)].data);\n            if id == 1 && !data.is_empty() {\n                self[DATA_PAGE].counter = self[DATA_PAGE].code_block_top;\n            }\n            for (c, data_label) in data {')]
demo = '''
    let mut jit = JitMemory::new();
    let a = jit.data_i64(1);
    jit.select_page(1);
    let b = jit.data_i64(2);
    jit.finalize();
    let (a, b) = (jit.get_label_u64(a), jit.get_label_u64(b));
    assert_ne!(a, b);
    assert_eq!(unsafe { *(a as *const u64) }, 1);
    assert_eq!(unsafe { *(b as *const u64) }, 2);
'''
