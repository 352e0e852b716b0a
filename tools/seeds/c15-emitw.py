prop = 'C15'
needs = 'a 16-bit emission with one byte left on the page'
breaks = 'only the first byte is checked; the second lands on the next page'
edits = [('monoasm/src/jit_memory.rs', '        self[c] = val as u8;\n        self[c + 1] = (val >> 8) as u8;\n        self.counter = c + 2;', '        let p: *mut u8 = &mut self[c];\n        unsafe { (p as *mut [u8; 2]).write(val.to_le_bytes()) };\n        self.counter = c + 2;')]
demo = '''
    let mut jit = JitMemory::new();
    let size = 1024 * 1024 * 256;
    while jit.get_current() + 4096 < size { jit.emitb(0); jit.align_page(); }
    while jit.get_current() < size - 1 { jit.emitb(0); }
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| jit.emitw(0xaaaa))).is_ok();
    assert!(!ok);
'''
