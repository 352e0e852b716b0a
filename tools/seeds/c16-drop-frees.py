prop = 'C16'
needs = 'calling generated code after its assembler was dropped'
breaks = 'the pages are given back when the assembler is dropped'
edits = [('monoasm/src/jit_memory.rs', 'impl std::default::Default for JitMemory {\n    fn default() -> Self {\n        Self::new()\n    }\n}', 'impl std::default::Default for JitMemory {\n    fn default() -> Self {\n        JitMemory::new()\n    }\n}\n\nimpl Drop for JitMemory {\n    fn drop(&mut self) {\n        let layout = Layout::from_size_align(PAGE_SIZE * 3, PAGE_SIZE).expect("Bad Layout.");\n        unsafe { std::alloc::dealloc(self.pages[0].contents(), layout) };\n    }\n}')]
demo = '''
    let f: extern "C" fn(u64) -> u64 = {
        let mut jit = JitMemory::new();
        let l = jit.label();
        monoasm!( &mut jit, l: movq rax, 42; ret; );
        jit.finalize();
        jit.get_label_addr(l)
    };
    assert_eq!(f(0), 42);
'''
