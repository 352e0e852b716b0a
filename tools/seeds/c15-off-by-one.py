prop = 'C15'
needs = 'a byte emitted exactly at the end of a page'
breaks = 'the bounds check admits the position just behind the page'
edits = [('monoasm/src/jit_memory.rs', 'impl IndexMut<Pos> for MemPage {\n    fn index_mut(&mut self, index: Pos) -> &mut u8 {\n        if index.0 >= PAGE_SIZE {', 'impl IndexMut<Pos> for MemPage {\n    fn index_mut(&mut self, index: Pos) -> &mut u8 {\n        if index.0 > PAGE_SIZE {')]
demo = '''
    let fill = |jit: &mut JitMemory, to: usize| {
        while jit.get_current() + 4096 < to { jit.emitb(0); jit.align_page(); }
        while jit.get_current() < to { jit.emitb(0); }
    };
    std::panic::set_hook(Box::new(|_| {}));
    const PAGE: usize = 256 * 1024 * 1024;

    let mut jit = JitMemory::new();
    fill(&mut jit, PAGE);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| jit.emitb(7)));
    assert!(r.is_err());
'''
