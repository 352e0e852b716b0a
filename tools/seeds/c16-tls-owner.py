prop = 'C16'
needs = 'an assembler (or code made by it) that outlives the thread that created it'
breaks = 'the memory belongs to the creating thread and is released when that thread ends, while code pointers into it are still in use'
edits = [('monoasm/src/jit_memory.rs', '        let contents = unsafe { alloc(layout) };\n', '''        let contents = unsafe { alloc(layout) };
        OWNED.with(|o| o.borrow_mut().push(Region(contents, layout)));
'''), ('monoasm/src/jit_memory.rs', 'const DATA_PAGE: Page = Page(2);\n', '''const DATA_PAGE: Page = Page(2);

/// Memory of the assemblers of a thread.
struct Region(*mut u8, Layout);

impl Drop for Region {
    fn drop(&mut self) {
        unsafe {
            let _ = protect(self.0, self.1.size(), Protection::READ_WRITE);
            std::alloc::dealloc(self.0, self.1)
        }
    }
}

thread_local! {
    static OWNED: std::cell::RefCell<Vec<Region>> = const { std::cell::RefCell::new(vec![]) };
}
''')]
demo = '''
    let f = std::thread::spawn(|| {
        let mut jit = JitMemory::new();
        let l = jit.label();
        monoasm!( &mut jit,
        l:
            movq rax, 42;
            ret;
        );
        jit.finalize();
        jit.get_label_addr::<u64, u64>(l)
    })
    .join()
    .unwrap();
    assert_eq!(f(0), 42);
'''
