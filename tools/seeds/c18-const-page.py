prop = "C18"
needs = "a constant created while page 1 is selected, and finalize() called while page 0 is selected"
breaks = "constants of page 1 are not placed unless page 1 is the selected page, so references to them stay unresolved"
edits = [("monoasm/src/jit_memory.rs", """    fn resolve_constants(&mut self) {
        for id in 0..2 {""", """    fn resolve_constants(&mut self) {
        for id in 0..=self.page.0 {""")]
demo = '''
    let mut jit = JitMemory::new();
    let f = jit.label();
    jit.select_page(1);
    let c = jit.const_i64(1234567890123);
    monoasm!( &mut jit, f: movq rax, [rip + c]; ret; );
    jit.select_page(0);
    jit.finalize();
    assert!(jit.get_label_u64(c) != 0);
    let f: extern "C" fn(u64) -> u64 = jit.get_label_addr(f);
    assert_eq!(f(0), 1234567890123);
'''
