prop = 'C15'
needs = 'access by position exactly one byte after the end of the selected page'
breaks = 'the first byte of the next page is accessed instead of a panic'
edits = [('monoasm/src/jit_memory.rs', '''impl IndexMut<Pos> for JitMemory {
    fn index_mut(&mut self, index: Pos) -> &mut u8 {
        if index.0 >= PAGE_SIZE {''', '''impl IndexMut<Pos> for JitMemory {
    fn index_mut(&mut self, index: Pos) -> &mut u8 {
        if index.0 > PAGE_SIZE {''')]
demo = '''
    let mut jit = JitMemory::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| jit[Pos::from(256 * 1024 * 1024)] = 9));
    assert!(r.is_err());
'''
