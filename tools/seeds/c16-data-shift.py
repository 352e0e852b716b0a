prop = 'C16'
needs = 'looking at where a data label lies, not only reading it'
breaks = 'the data page starts inside the second code page, so the first data lies in executable memory and counts as code'
edits = [('monoasm/src/jit_memory.rs', 'let data_page = MemPage::new(unsafe { contents.add(PAGE_SIZE * 2) });', 'let data_page = MemPage::new(unsafe { contents.add(PAGE_SIZE * 2 - 4096) });')]
demo = '''
    let mut jit = JitMemory::new();
    let d = jit.data_i64(42);
    jit.finalize();
    let p = jit.get_label_address(d).as_ptr() as *mut u8;
    assert!(!jit.include(p));
'''
