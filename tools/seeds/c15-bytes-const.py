prop = 'C15'
needs = 'a byte block placed within less than its size of the page end'
breaks = 'byte blocks are reserved without checking that they fit the page'
edits = [('monoasm/src/jit_memory.rs', '                        self.bind_label_with_page(Page(id), const_label);\n                        for _ in 0..size {\n                            self[Page(id)].emitb(0);\n                        }', '                        self.bind_label_with_page(Page(id), const_label);\n                        let page = &mut self[Page(id)];\n                        let top = page.counter.0;\n                        unsafe { std::ptr::write_bytes(page.contents().add(top), 0, size) };\n                        page.counter = Pos(top + size);')]
demo = '''
    let fill = |jit: &mut JitMemory, to: usize| {
        while jit.get_current() + 4096 < to { jit.emitb(0); jit.align_page(); }
        while jit.get_current() < to { jit.emitb(0); }
    };
    std::panic::set_hook(Box::new(|_| {}));
    const PAGE: usize = 256 * 1024 * 1024;

    let mut jit = JitMemory::new();
    jit.select_page(1);
    jit.emitq(0x1111_1111_1111_1111);
    let p = unsafe { jit.get_current_address().as_ptr().sub(8) };
    jit.select_page(0);
    fill(&mut jit, PAGE - 16);
    jit.constant(17);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| jit.finalize()));
    assert!(r.is_err());
    assert_eq!(unsafe { *p }, 0x11);
'''
