prop = 'C15'
needs = 'a build without debug assertions and a full page'
breaks = 'in an optimized build the byte after the end of the page is written'
release = True
edits = [('monoasm/src/jit_memory.rs', '''impl IndexMut<Pos> for MemPage {
    fn index_mut(&mut self, index: Pos) -> &mut u8 {
        if index.0 >= PAGE_SIZE {
            panic!("Page size overflow")
        }
''', '''impl IndexMut<Pos> for MemPage {
    fn index_mut(&mut self, index: Pos) -> &mut u8 {
        debug_assert!(index.0 < PAGE_SIZE, "Page size overflow");
''')]
demo = '''
    let r = std::panic::catch_unwind(|| {
        let mut jit = JitMemory::new();
        for _ in 0..(256 << 20) / 8 {
            jit.emitq(0x9090909090909090);
        }
        jit.emitb(0xc3);
    });
    assert!(r.is_err());
'''
