prop = 'C15'
needs = 'a 32-bit emission with less than 4 bytes left on the page'
breaks = 'only the first byte is checked against the page end, the rest lands on the next page'
edits = [('monoasm/src/jit_memory.rs', '        let c = self.counter;\n        self[c] = val as u8;\n        self[c + 1] = (val >> 8) as u8;\n        self[c + 2] = (val >> 16) as u8;\n        self[c + 3] = (val >> 24) as u8;\n        self.counter = c + 4;', '        let c = self.counter;\n        let slot = &mut self[c] as *mut u8 as *mut u32;\n        unsafe { slot.write_unaligned(val) };\n        self.counter = c + 4;')]
demo = '''
    let fill = |jit: &mut JitMemory, to: usize| {
        while jit.get_current() + 4096 < to { jit.emitb(0); jit.align_page(); }
        while jit.get_current() < to { jit.emitb(0); }
    };
    std::panic::set_hook(Box::new(|_| {}));
    const PAGE: usize = 256 * 1024 * 1024;

    let mut jit = JitMemory::new();
    fill(&mut jit, PAGE - 2);
    let end = unsafe { jit.get_current_address().as_ptr().add(2) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| jit.emitl(0xffff_ffff)));
    assert!(r.is_err());
    assert_eq!(unsafe { *end }, 0);
'''
