prop = 'C12'
needs = 'writing a byte by position while page 1 is selected'
breaks = 'the byte is written to page 0'
edits = [('monoasm/src/jit_memory.rs', '''impl IndexMut<Pos> for JitMemory {
    fn index_mut(&mut self, index: Pos) -> &mut u8 {
        if index.0 >= PAGE_SIZE {
            panic!("Page size overflow")
        }
        unsafe { &mut *self.contents().add(index.0) }''', '''impl IndexMut<Pos> for JitMemory {
    fn index_mut(&mut self, index: Pos) -> &mut u8 {
        &mut self.pages[0][index]''')]
demo = '''
    let mut jit = JitMemory::new();
    jit.emitq(0);
    jit.select_page(1);
    let z = jit.get_current_address().as_ptr();
    jit.emitq(0);
    jit[Pos::from(3)] = 9;
    assert_eq!(unsafe { *z.add(3) }, 9);
'''
